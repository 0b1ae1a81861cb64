// C06, C18, C19: several application threads use the library at the same time, each with its own operands.
#include "callop.h"
using namespace sim;

extern "C" {
void armas_ios_wbuf(armas_iostream_t *ios, struct armas_wbuf *wb);   // not in the header
}

namespace {
enum { C_OWN, C_NULL, C_ACCEL };
struct Job {
    DOp op; int kind = 0, conf = C_OWN, acc = 0; unsigned optflags = 0; bool ws = false; armas_wbuf_t w = ARMAS_WBNULL;
    armas_conf_t cf; int rc = 0; bool refused = false;
    std::vector<double> first; armas_conf_t cf1; int rc1 = 0;
};
// sparse matrix work on one's own objects: build, convert, transpose, add, multiply, apply, solve. Results go to C.
void gen_sparse_job(Job &j, int maxd) {
    Layout l = gen_layout();
    int n = P("n", 1, maxd), which = P("sparse", 0, 5), kind = P("kind", 0, 1), dens = P("dens", 0, 2);
    Operand &A = j.op.mk("A", n, n, l, false), &C = j.op.mk("C", n, n, l, true), &X = j.op.mkv("x", n, l, false), &Y = j.op.mkv("y", n, l, true);
    for (int i = 0; i < n; i++) A.at(i, i) += 2 * n;
    static const char *nm[] = {"sparse convert", "sparse transpose", "sparse add", "sparse mult", "sparse mvmult", "sparse solvers"};
    char d[64]; snprintf(d, sizeof d, "%s n=%d %s dens=%d", nm[which], n, kind ? "CSR" : "CSC", dens);
    j.op.name = nm[which]; j.op.desc = d;
    Operand *a = &A, *c = &C, *x = &X, *y = &Y;
    j.op.call = [=](armas_conf_t *cf) {
        int N = n, rc = -100;
        armas_sparse_t *E = armassp_new(N, N, 1, ARMASSP_COO), *S = 0, *T = 0;
        if (!E) return -101;
        for (int q = 0; q < N; q++) for (int i = 0; i < N; i++) if (i == q || dens == 2 || (i * 7 + q * 3) % (dens ? 2 : 5) == 0)
            if (armassp_append(E, i, q, a->at(i, q))) { armassp_free(E); return -102; }
        S = armassp_convert(E, kind ? ARMASSP_CSR : ARMASSP_CSC);
        armassp_free(E);
        if (!S) return -103;
        switch (which) {
        case 0: T = armassp_convert(S, kind ? ARMASSP_CSC : ARMASSP_CSR); break;
        case 1: T = armassp_transpose(S); break;
        case 2: T = armassp_add(2.0, S, -0.5, S, 0, cf); break;
        case 3: T = armassp_mult(1.5, S, S, 0, cf); break;
        case 4: rc = armassp_mvmult(0.0, &y->m, 1.0, S, &x->m, dens == 1 ? ARMAS_TRANS : 0, cf);
                if (!rc) rc = armassp_mvsolve_trm(&y->m, 1.0, S, ARMAS_UPPER, cf); break;
        default: rc = armassp_gmres(&y->m, S, &x->m, cf); if (rc < 0) rc = cf && cf->error != ARMAS_ECONVERGE ? rc : 0; break;
        }
        if (which < 4) rc = T ? armassp_todense(&c->m, T, cf) : -104;
        if (T) armassp_free(T);
        armassp_free(S);
        return rc;
    };
    j.op.verify = [](int) {};
    j.op.save();
}
// a matrix is written to a stream of one's own and read back
void gen_io_job(Job &j, int maxd) {
    Layout l = gen_layout();
    int m = P("m", 1, maxd), n = P("n", 1, maxd), which = P("io", 0, 2);
    Operand &A = j.op.mk("A", m, n, l, false), &C = j.op.mk("C", m, n, l, true);
    static const char *nm[] = {"json buffer", "json file", "matrix market file"};
    char d[64]; snprintf(d, sizeof d, "%s %dx%d", nm[which], m, n);
    j.op.name = nm[which]; j.op.desc = d;
    Operand *a = &A, *c = &C;
    size_t cap = 256 + (size_t)m * n * 40;
    char *text = (char *)harness_alloc(cap);
    j.op.call = [=](armas_conf_t *) {
        armas_dense_t B, *pb = &B; armas_iostream_t ios; struct armas_wbuf wb; FILE *fp; int rc, fl = 0;
        memset(&B, 0, sizeof B); memset(text, 0, cap);
        if (which == 0) {
            wb.buf = text; wb.bytes = cap; wb.offset = 0;
            armas_ios_wbuf(&ios, &wb);
            if ((rc = armas_json_write(&ios, &a->m, 0))) return rc < 0 ? rc : -201;
            armas_ios_close(&ios);
            wb.bytes = wb.offset; wb.offset = 0;
            armas_ios_wbuf(&ios, &wb);
            rc = armas_json_read(&pb, &ios);
            armas_ios_close(&ios);
        } else {
            if (!(fp = fmemopen(text, cap, "w"))) return -202;
            rc = which == 1 ? armas_json_dump(fp, &a->m, 0) : armas_mmdump(fp, &a->m, 0);
            fclose(fp);
            if (rc < 0 || (rc && which == 1)) return rc < 0 ? rc : -203;
            if (!(fp = fmemopen(text, strlen(text), "r"))) return -204;
            rc = which == 1 ? armas_json_load(&pb, fp) : armas_mmload(&B, &fl, fp);
            fclose(fp);
        }
        if (rc < 0 || (rc && which < 2)) return rc < 0 ? rc : -205;
        if (B.rows != c->m.rows || B.cols != c->m.cols) { armas_release(&B); return -206; }
        for (int q = 0; q < B.cols; q++) for (int i = 0; i < B.rows; i++) c->at(i, q) = armas_get_unsafe(&B, i, q);
        armas_release(&B);
        return 0;
    };
    j.op.verify = [=](int) {
        for (int q = 0; q < n; q++) for (int i = 0; i < m; i++) if (!(fabs(c->at(i, q) - a->at(i, q)) <= 1.01e-13 * fabs(a->at(i, q))))
            violation("wrong-result", nm[which], "element (%d,%d) is %.17g, written was %.17g", i, q, c->at(i, q), a->at(i, q));
    };
    j.op.save();
}
// call that must be refused
void gen_bad(Job &j, int maxd) {
    Layout l = gen_layout();
    int n = P("n", 2, maxd), which = P("bad", 0, 2);
    Operand &A = j.op.mk("A", n, n, l, false), &B = j.op.mk("B", n + 1, n, l, false), &C = j.op.mk("C", n, n, l, true);
    static const char *nm[] = {"mult", "mult_sym", "solve_trm"};
    j.op.name = nm[which]; j.op.desc = std::string("bad ") + nm[which];
    Operand *a = &A, *b = &B, *c = &C;
    j.op.call = [=](armas_conf_t *cf) {
        switch (which) {
        case 0: return armas_mult(0.0, &c->m, 1.0, &a->m, &b->m, 0, cf);
        case 1: return armas_mult_sym(0.0, &c->m, 1.0, &b->m, &a->m, ARMAS_LOWER | ARMAS_LEFT, cf);
        default: return armas_solve_trm(&c->m, 1.0, &b->m, ARMAS_LOWER | ARMAS_LEFT, cf);
        }
    };
    j.op.verify = [](int) {};
    j.op.save();
}
void gen_job(Job &j, int groups, int maxd, bool accel) {
    int k = groups & (G_LEVEL | G_COMPAT) && !(groups & G_EXT) ? 0 : P("jobkind", 0, 11);
    if (k == 8) { Layout l = gen_layout(); gen_op(j.op, G_COMPAT, l, maxd); j.kind = 1; }
    else if (k == 9) { gen_bad(j, maxd); j.kind = 2; }
    else if (k == 10) { gen_sparse_job(j, maxd); j.kind = 3; }
    else if (k == 11) { gen_io_job(j, maxd < 12 ? maxd : 12); j.kind = 4; }
    else { Layout l = gen_layout(); gen_op(j.op, groups, l, maxd); }
    j.conf = j.kind == 1 || j.kind == 4 || groups == G_COMPAT ? C_NULL : P("conf", 0, accel ? 3 : 1);
    if (j.conf == 3) j.conf = C_ACCEL;
    if (j.op.setup_conf && j.conf == C_NULL) j.conf = C_OWN;
    if (j.conf == C_ACCEL) j.acc = PC("accel", {0, 0, 1, 2});
    if (j.conf != C_NULL && PF("local", .2)) j.optflags |= ARMAS_CBUF_LOCAL;
    j.ws = j.op.callw && PF("ws", .4);
    describe("%s%s%s; ", j.op.desc.c_str(), j.conf == C_NULL ? " null" : j.conf == C_ACCEL ? ac_names[j.acc] : "", j.ws ? " w" : "");
}
void exec(Job &j) {
    armas_conf_t *cf = &j.cf; armas_ac_handle_t h = 0;
    j.cf = *armas_conf_default();
    j.cf.error = 0; j.cf.numiters = 0; j.cf.residual = 0;   // (outputs of calls without a configuration block end in the default block)
    j.cf.optflags |= j.optflags;
    if (j.conf == C_NULL) cf = NULL;
    if (j.conf == C_ACCEL) {
        if (armas_ac_init(&h, ac_names[j.acc]) != 0 || !h) violation("init", "armas_ac_init", "accelerator %s cannot be created", ac_names[j.acc]);
        j.cf.accel = h;
    }
    if (j.op.setup_conf) j.op.setup_conf(cf);
    if (j.ws) {
        armas_wbuf_t q = ARMAS_WBNULL;
        int rc = j.op.callw(&q, cf);
        if (rc != 0) violation("query", j.op.name.c_str(), "%s: the workspace query returned %d", j.op.desc.c_str(), rc);
        armas_wbuf_t w = ARMAS_WBNULL;
        if (q.bytes && !armas_walloc(&w, q.bytes)) violation("query", "armas_walloc", "workspace of %zu bytes cannot be allocated", q.bytes);
        j.rc = j.op.callw(q.bytes ? &w : ARMAS_NOWORK, cf);
        if (q.bytes) armas_wrelease(&w);
    } else j.rc = j.op.call(cf);
    if (h) armas_ac_release(h);
    j.cf.accel = 0;
}
void judge(Job &j, const char *how) {
    if (j.kind == 2) {
        if (j.rc >= 0) violation("bad-accepted", j.op.name.c_str(), "%s %s returned %d", j.op.desc.c_str(), how, j.rc);
        if (j.conf != C_NULL && j.cf.error == 0) violation("bad-accepted", j.op.name.c_str(), "%s %s: no error in the configuration block of the caller", j.op.desc.c_str(), how);
        for (auto &o : j.op.all) o->check_unchanged(j.op.name.c_str());
        checked();
        return;
    }
    if (!j.op.ok(j.rc)) violation("error-return", j.op.name.c_str(), "%s %s returned %d (error %d)", j.op.desc.c_str(), how, j.rc, j.cf.error);
    j.op.check(j.rc);
}
}

static void apps(int groups, int maxd, bool accel, bool first) {
    set_fill(P("fill", 0, 3));
    Env e; gen_ac_env(e, maxd * maxd / 2); gen_blk_env(e);
    if (first) describe("first use "); else armas_conf_default();
    int nth = P("nth", 2, 4);
    std::vector<std::vector<std::unique_ptr<Job>>> js(nth);
    for (auto &v : js) { v.resize(P("njob", 1, flavour == INSTR ? 2 : 3)); for (auto &p : v) { p.reset(new Job); gen_job(*p, groups, maxd, accel); } }
    bool solo_first = !first && PF("solofirst", .5);
    auto alone = [&] {
        for (auto &v : js) for (auto &p : v) { exec(*p); judge(*p, "alone"); }
    };
    auto keep = [&] { for (auto &v : js) for (auto &p : v) { p->first = p->op.result(); p->rc1 = p->rc; p->cf1 = p->cf; p->op.restore(); } };
    SchedCfg sc = random_sched(flavour == INSTR ? 60000 : 6000, 4000);
    sched_start(sc);
    if (solo_first) { alone(); keep(); sched_extend(sc.fair_budget); }
    std::vector<int> t;
    for (auto &v : js) t.push_back(app_thread([&v] { for (auto &p : v) exec(*p); armas_cbuf_release_thread_global(); }));
    for (int x : t) app_join(x);
    for (auto &v : js) for (auto &p : v) judge(*p, "at the same time with others");
    if (!solo_first) { keep(); sched_extend(sc.fair_budget); alone(); }
    wait_quiescent();
    if (live_threads() != 0) violation("thread-left", "release", "%d threads never end", live_threads());
    sched_stop();
    for (auto &v : js) for (auto &p : v) {
        Job &j = *p;
        auto r = j.op.result();
        if (j.rc != j.rc1) violation("differs-from-alone", j.op.name.c_str(), "%s returned %d together with others and %d alone", j.op.desc.c_str(), solo_first ? j.rc : j.rc1, solo_first ? j.rc1 : j.rc);
        for (size_t i = 0; i < r.size(); i++) if (memcmp(&r[i], &j.first[i], 8))
            violation("differs-from-alone", j.op.name.c_str(), "%s: result value %zu is %.17g together with others and %.17g alone", j.op.desc.c_str(), i, solo_first ? r[i] : j.first[i], solo_first ? j.first[i] : r[i]);
        if (j.cf.error != j.cf1.error || j.cf.numiters != j.cf1.numiters || memcmp(&j.cf.residual, &j.cf1.residual, 8))
            violation("differs-from-alone", j.op.name.c_str(), "%s: outputs of the configuration block differ: error %d and %d", j.op.desc.c_str(), j.cf.error, j.cf1.error);
        checked();
    }
    check_heap();
    nontrivial();
}
SCENARIO(C06, basic, 2, FAST) { apps(G_BLAS | G_EXT | G_LEVEL, 40, true, false); }
SCENARIO(C06, first, 1, FAST) { apps(G_BLAS | G_EXT | G_LEVEL, 32, true, true); }
SCENARIO(C06, lapack, 2, FAST) { apps(G_FACT | G_EIG, 28, true, false); }
SCENARIO(C06, basic_instr, 2, INSTR) { apps(G_BLAS | G_EXT | G_LEVEL, 12, true, false); }
SCENARIO(C06, first_instr, 2, INSTR) { apps(G_BLAS | G_EXT | G_LEVEL, 9, true, true); }
SCENARIO(C06, lapack_instr, 2, INSTR) { apps(G_FACT | G_EIG, 9, true, false); }
// vector and matrix-vector work, rotations, sorting and scalar functions while other threads work
SCENARIO(C18, threads, 1, FAST) { apps(G_L2 | G_LEVEL, 60, false, PF("first", .3)); }
SCENARIO(C18, threads_instr, 1, INSTR) { apps(G_L2 | G_LEVEL, 12, false, PF("first", .3)); }
SCENARIO(C19, threads, 1, FAST) { apps(G_COMPAT, 60, false, PF("first", .3)); }
SCENARIO(C19, threads_instr, 1, INSTR) { apps(G_COMPAT, 12, false, PF("first", .3)); }
