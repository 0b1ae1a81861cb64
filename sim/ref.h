// Operands with guarded surroundings and long double reference models.
#ifndef SIM_REF_H
#define SIM_REF_H
#include "armas_sim.h"
#include <vector>
#include <functional>
#include <string>
#include <float.h>
typedef long double LD;
#define EPS DBL_EPSILON

// ------------------------------------------------------------------ plain matrices for models
struct Mat {
    int r = 0, c = 0;
    std::vector<LD> v;
    Mat() {}
    Mat(int r_, int c_) : r(r_), c(c_), v((size_t)r_ * c_, 0.0L) {}
    LD &operator()(int i, int j) { return v[(size_t)j * r + i]; }
    LD operator()(int i, int j) const { return v[(size_t)j * r + i]; }
};
static inline Mat ident(int n) { Mat m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
static inline Mat tr(const Mat &a) { Mat t(a.c, a.r); for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) t(j, i) = a(i, j); return t; }
static inline Mat mul(const Mat &a, const Mat &b) {
    if (a.c != b.r) sim::harness_error("mul: %dx%d * %dx%d", a.r, a.c, b.r, b.c);
    Mat c(a.r, b.c);
    for (int j = 0; j < b.c; j++) for (int k = 0; k < a.c; k++) { LD x = b(k, j); if (x != 0) for (int i = 0; i < a.r; i++) c(i, j) += a(i, k) * x; }
    return c;
}
static inline Mat absm(Mat a) { for (auto &x : a.v) x = fabsl(x); return a; }
static inline Mat scaled(Mat a, LD s) { for (auto &x : a.v) x *= s; return a; }
static inline Mat add(Mat a, const Mat &b, LD s = 1) {
    if (a.r != b.r || a.c != b.c) sim::harness_error("add: %dx%d + %dx%d", a.r, a.c, b.r, b.c);
    for (size_t i = 0; i < a.v.size(); i++) a.v[i] += s * b.v[i]; return a;
}
static inline Mat sub(const Mat &a, const Mat &b) { return add(a, b, -1); }
static inline LD fro(const Mat &a) { LD s = 0; for (auto x : a.v) { if (!(x == x)) return INFINITY; s += x * x; } return sqrtl(s); }
static inline LD maxabs(const Mat &a) { LD s = 0; for (auto x : a.v) { if (!(x == x)) return INFINITY; if (fabsl(x) > s) s = fabsl(x); } return s; }
static inline Mat triu(Mat a, bool unit = false) { for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) { if (i > j) a(i, j) = 0; if (unit && i == j) a(i, j) = 1; } return a; }
static inline Mat tril(Mat a, bool unit = false) { for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) { if (i < j) a(i, j) = 0; if (unit && i == j) a(i, j) = 1; } return a; }
static inline Mat sub(const Mat &a, int r0, int c0, int nr, int nc) { Mat m(nr, nc); for (int j = 0; j < nc; j++) for (int i = 0; i < nr; i++) m(i, j) = a(r0 + i, c0 + j); return m; }
static inline Mat symm_from(const Mat &a, bool upper) { Mat m = a; for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) if (upper ? i > j : i < j) m(i, j) = a(j, i); return m; }

// ------------------------------------------------------------------ operands
enum Pad { PAD_FINITE, PAD_NAN, PAD_HUGE };
struct Operand {
    armas_dense_t m;
    double *base = 0; size_t nel = 0;
    int prow = 0, pcol = 0, step = 0, r0 = 0, c0 = 0;
    std::string name;
    std::vector<double> snap;
    int rows() const { return m.rows; }
    int cols() const { return m.cols; }
    double &at(int i, int j) { return base[(size_t)(c0 + j) * step + r0 + i]; }
    double at(int i, int j) const { return base[(size_t)(c0 + j) * step + r0 + i]; }
    void save() { snap.assign(base, base + nel); }
    void restore() { memcpy(base, snap.data(), nel * sizeof(double)); }
    bool inside(size_t k) const { long c = (long)(k / step), r = (long)(k % step); return r >= r0 && r < r0 + m.rows && c >= c0 && c < c0 + m.cols; }
    Mat mat() const { Mat a(m.rows, m.cols); for (int j = 0; j < m.cols; j++) for (int i = 0; i < m.rows; i++) a(i, j) = at(i, j); return a; }
    Mat saved() const { Mat a(m.rows, m.cols); for (int j = 0; j < m.cols; j++) for (int i = 0; i < m.rows; i++) a(i, j) = snap[(size_t)(c0 + j) * step + r0 + i]; return a; }
    // outside of the view (and optionally inside too) nothing changed
    void check_outside(const char *what) const {
        for (size_t k = 0; k < nel; k++)
            if (memcmp(&base[k], &snap[k], 8) && !inside(k)) {
                long c = (long)(k / step), r = (long)(k % step);
                sim::violation("outside", name.c_str(), "%s: memory outside the %dx%d view of %s changed at row %ld column %ld relative to the view (%.17g -> %.17g)",
                               what, m.rows, m.cols, name.c_str(), r - r0, c - c0, snap[k], base[k]);
            }
    }
    void check_unchanged(const char *what) const {
        check_outside(what);
        if (memcmp(base, snap.data(), nel * sizeof(double)))
            for (size_t k = 0; k < nel; k++) if (memcmp(&base[k], &snap[k], 8)) {
                long c = (long)(k / step), r = (long)(k % step);
                sim::violation("input-changed", name.c_str(), "%s: input operand %s changed at (%ld,%ld): %.17g -> %.17g", what, name.c_str(), r - r0, c - c0, snap[k], base[k]);
            }
    }
    void fill(const std::function<double(int, int)> &f) { for (int j = 0; j < m.cols; j++) for (int i = 0; i < m.rows; i++) at(i, j) = f(i, j); }
    void fill_uniform() { fill([](int, int) { return 2 * sim::wrng.unit() - 1; }); }
    void set(const Mat &a) { for (int j = 0; j < m.cols; j++) for (int i = 0; i < m.rows; i++) at(i, j) = (double)a(i, j); }
};

// how an operand is embedded: decided once per run
struct Layout { int pad; bool embed; };
static inline Layout gen_layout() { Layout l; l.pad = sim::P("pad", 0, 2); l.embed = sim::P("embed", 0, 3) > 0; return l; }

static inline void make_operand(Operand &o, const char *name, int rows, int cols, const Layout &l) {
    o.name = name;
    if (l.embed) {
        o.r0 = (int)sim::wrng.below(4); o.c0 = (int)sim::wrng.below(3);
        o.prow = o.r0 + rows + (int)sim::wrng.below(4);
        o.pcol = o.c0 + cols + (int)sim::wrng.below(3);
        o.step = o.prow + (int)sim::wrng.below(9);
    } else { o.r0 = o.c0 = 0; o.prow = rows; o.pcol = cols; o.step = rows; }
    if (o.step < 1) o.step = 1;
    o.nel = (size_t)o.step * (o.pcol > 0 ? o.pcol : 1);
    o.base = (double *)sim::operand_mem(o.nel * sizeof(double), name, (int)sim::wrng.below(8) * 8);
    for (size_t k = 0; k < o.nel; k++)
        o.base[k] = l.pad == PAD_NAN ? NAN : l.pad == PAD_HUGE ? 1e300 * (2 * sim::wrng.unit() - 1) : 2 * sim::wrng.unit() - 1;
    armas_make(&o.m, rows, cols, o.step, o.base + (size_t)o.c0 * o.step + o.r0);
    for (int j = 0; j < cols; j++) for (int i = 0; i < rows; i++) o.at(i, j) = 2 * sim::wrng.unit() - 1;
}
// vectors: column vector, or row of a matrix
static inline void make_vector(Operand &o, const char *name, int n, const Layout &l, int allow_row = 1) {
    if (allow_row && l.embed && n > 1 && sim::wrng.below(3) == 0) make_operand(o, name, 1, n, l);
    else make_operand(o, name, n, 1, l);
}
static inline double &vat(Operand &o, int k) { return o.m.cols == 1 ? o.at(k, 0) : o.at(0, k); }
static inline int vlen(const Operand &o) { return o.m.rows * o.m.cols; }
static inline Mat vmat(const Operand &o) { int n = vlen(o); Mat v(n, 1); for (int k = 0; k < n; k++) v(k, 0) = o.m.cols == 1 ? o.at(k, 0) : o.at(0, k); return v; }

// component-wise comparison: |got - want| <= c * eps * scale
static inline void check_close(const char *site, const char *what, const Mat &got, const Mat &want, const Mat &scale, LD c) {
    for (int j = 0; j < want.c; j++) for (int i = 0; i < want.r; i++) {
        LD d = fabsl(got(i, j) - want(i, j)), lim = c * EPS * scale(i, j) + 1e-300L;
        if (!(d <= lim))
            sim::violation("wrong-result", site, "%s: element (%d,%d) of %dx%d is %.17Lg, expected %.17Lg (difference %.3Lg, allowed %.3Lg)", what, i, j, want.r, want.c,
                           got(i, j), want(i, j), d, lim);
    }
    sim::checked();
}
static inline void check_norm(const char *site, const char *what, LD err, LD lim) {
    if (!(err <= lim)) sim::violation("wrong-result", site, "%s: error %.4Lg exceeds %.4Lg", what, err, lim);
    sim::checked();
}

// ------------------------------------------------------------------ BLAS3 cases (accelerated operations)
enum { B3_GEMM, B3_SYMM, B3_TRMM, B3_TRSM, B3_N };
static const char *b3name[] = {"mult", "mult_sym", "mult_trm", "solve_trm"};
struct B3 {
    int op, m, n, k, flags; double alpha, beta;
    Operand A, B, C;               // C: target (for trmm/trsm the target is B, kept in C)
    Mat Aeff, Aabs;
    bool aliasAB = false;
};
static inline int tri_dim(const B3 &c) { return c.flags & ARMAS_RIGHT ? c.n : c.m; }

static inline double gen_scalar(const char *name) {
    static const double v[] = {1.0, -1.0, 0.0, 0.5, -2.25, 1e-3, 7.0};
    return v[sim::P(name, 0, 6)];
}
// triangular matrix that is well conditioned for solving
static inline void fill_tri(Operand &o, bool upper, bool unit, bool poison) {
    int n = o.rows();
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
        if (i == j) o.at(i, j) = unit ? (poison ? NAN : 5.0) : (2.0 + sim::wrng.unit()) * (sim::wrng.below(2) ? 1 : -1);
        else if (upper ? i < j : i > j) o.at(i, j) = (2 * sim::wrng.unit() - 1) / (n > 1 ? n : 1) * 2;
        else o.at(i, j) = poison ? NAN : 2 * sim::wrng.unit() - 1;
    }
}

static inline int gen_dim(const char *name, int maxd) {
    // sizes around small multiples of 4, of the block sizes and random
    switch (sim::P("dimkind", 0, 4)) {
    case 0: { int d = sim::P(name, 1, 9); return d > maxd ? maxd : d; }
    case 1: { int d = 4 * sim::P(name, 1, maxd / 4 > 1 ? maxd / 4 : 1) + (int)sim::P("off", -1, 1); return d < 1 ? 1 : d > maxd ? maxd : d; }
    default: return sim::P(name, 1, maxd);
    }
}

// inner dimension: sometimes empty
static inline int gen_inner(const char *name, int maxd) { return sim::PF("empty", .04) ? 0 : gen_dim(name, maxd); }

// op < 0: chosen here
static inline void gen_b3(B3 &c, int op, int maxd, const Layout &l) {
    c.op = op >= 0 ? op : sim::P("op", 0, B3_N - 1);
    c.m = gen_dim("m", maxd); c.n = gen_dim("n", maxd); c.k = gen_inner("k", maxd);
    c.alpha = gen_scalar("alpha"); c.beta = gen_scalar("beta");
    c.flags = 0;
    bool poison = sim::PF("poison", 0.6);
    switch (c.op) {
    case B3_GEMM: {
        if (sim::PF("ta", .4)) c.flags |= ARMAS_TRANSA;
        if (sim::PF("tb", .4)) c.flags |= ARMAS_TRANSB;
        bool ta = c.flags & ARMAS_TRANSA, tb = c.flags & ARMAS_TRANSB;
        make_operand(c.A, "A", ta ? c.k : c.m, ta ? c.m : c.k, l);
        make_operand(c.B, "B", tb ? c.n : c.k, tb ? c.k : c.n, l);
        make_operand(c.C, "C", c.m, c.n, l);
        break; }
    case B3_SYMM: {
        bool up = sim::PF("upper", .5), right = sim::PF("right", .5);
        c.flags |= (up ? ARMAS_UPPER : ARMAS_LOWER) | (right ? ARMAS_RIGHT : ARMAS_LEFT);
        bool tb = sim::PF("tb", .3);
        if (tb) c.flags |= ARMAS_TRANSB;
        int d = tri_dim(c);
        make_operand(c.A, "A", d, d, l);
        if (poison) for (int j = 0; j < d; j++) for (int i = 0; i < d; i++) if (up ? i > j : i < j) c.A.at(i, j) = NAN;
        make_operand(c.B, "B", tb ? c.n : c.m, tb ? c.m : c.n, l);
        make_operand(c.C, "C", c.m, c.n, l);
        break; }
    default: {
        bool up = sim::PF("upper", .5), right = sim::PF("right", .5), unit = sim::PF("unit", .3), ta = sim::PF("ta", .5);
        c.flags |= (up ? ARMAS_UPPER : ARMAS_LOWER) | (right ? ARMAS_RIGHT : ARMAS_LEFT) | (unit ? ARMAS_UNIT : 0) | (ta ? ARMAS_TRANS : 0);
        int d = tri_dim(c);
        make_operand(c.A, "A", d, d, l);
        fill_tri(c.A, up, unit, poison);
        make_operand(c.C, "B", c.m, c.n, l);
        break; }
    }
    c.A.save(); c.C.save();
    if (c.op <= B3_SYMM) c.B.save();
}
static inline std::string b3desc(const B3 &c) {
    char b[240];
    snprintf(b, sizeof b, "%s %dx%dx%d alpha=%g beta=%g%s%s%s%s%s%s", b3name[c.op], c.m, c.n, c.k, c.alpha, c.beta,
             c.flags & ARMAS_TRANSA ? " TRANSA" : "", c.flags & ARMAS_TRANSB ? " TRANSB" : "", c.flags & ARMAS_UPPER ? " UPPER" : c.flags & ARMAS_LOWER ? " LOWER" : "",
             c.flags & ARMAS_RIGHT ? " RIGHT" : c.flags & ARMAS_LEFT ? " LEFT" : "", c.flags & ARMAS_UNIT ? " UNIT" : "", c.C.step != c.C.m.rows ? " view" : "");
    return b;
}
static inline int run_b3(B3 &c, armas_conf_t *cf) {
    switch (c.op) {
    case B3_GEMM: return armas_mult(c.beta, &c.C.m, c.alpha, &c.A.m, &c.B.m, c.flags, cf);
    case B3_SYMM: return armas_mult_sym(c.beta, &c.C.m, c.alpha, &c.A.m, &c.B.m, c.flags, cf);
    case B3_TRMM: return armas_mult_trm(&c.C.m, c.alpha, &c.A.m, c.flags, cf);
    default: return armas_solve_trm(&c.C.m, c.alpha, &c.A.m, c.flags, cf);
    }
}
static inline Mat tri_of(const Mat &a, int flags) {
    Mat t(a.r, a.c);
    for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++)
        t(i, j) = i == j ? (flags & ARMAS_UNIT ? 1.0L : a(i, j)) : (flags & ARMAS_UPPER ? i < j : i > j) ? a(i, j) : 0.0L;
    return t;
}
// frame conditions + result; valid after a call that reported success
static inline void verify_b3_frame(B3 &c) {
    c.A.check_unchanged(b3name[c.op]);
    if (c.op <= B3_SYMM) c.B.check_unchanged(b3name[c.op]);
    c.C.check_outside(b3name[c.op]);
}
static inline void verify_b3(B3 &c) {
    std::string d = b3desc(c);
    verify_b3_frame(c);
    Mat A = c.A.saved(), got = c.C.mat(), C0 = c.C.saved();
    if (c.op == B3_GEMM) {
        Mat B = c.B.saved();
        if (c.flags & ARMAS_TRANSA) A = tr(A);
        if (c.flags & ARMAS_TRANSB) B = tr(B);
        Mat want = add(scaled(C0, c.beta), mul(A, B), c.alpha);
        Mat sc = add(scaled(absm(C0), fabs(c.beta)), mul(absm(A), absm(B)), fabs(c.alpha));
        check_close(b3name[c.op], d.c_str(), got, want, sc, 4.0L * (c.k + 8));
    } else if (c.op == B3_SYMM) {
        Mat B = c.B.saved();
        A = symm_from(A, c.flags & ARMAS_UPPER);
        if (c.flags & ARMAS_TRANSB) B = tr(B);
        bool right = c.flags & ARMAS_RIGHT;
        Mat want = add(scaled(C0, c.beta), right ? mul(B, A) : mul(A, B), c.alpha);
        Mat sc = add(scaled(absm(C0), fabs(c.beta)), right ? mul(absm(B), absm(A)) : mul(absm(A), absm(B)), fabs(c.alpha));
        check_close(b3name[c.op], d.c_str(), got, want, sc, 4.0L * (A.r + 8));
    } else {
        A = tri_of(A, c.flags);
        if (c.flags & ARMAS_TRANS) A = tr(A);
        bool right = c.flags & ARMAS_RIGHT;
        if (c.op == B3_TRMM) {
            Mat want = scaled(right ? mul(C0, A) : mul(A, C0), c.alpha);
            Mat sc = scaled(right ? mul(absm(C0), absm(A)) : mul(absm(A), absm(C0)), fabs(c.alpha));
            check_close(b3name[c.op], d.c_str(), got, want, sc, 4.0L * (A.r + 8));
        } else {
            Mat back = right ? mul(got, A) : mul(A, got);
            Mat want = scaled(C0, c.alpha);
            Mat sc = add(absm(want), right ? mul(absm(got), absm(A)) : mul(absm(A), absm(got)));
            check_close(b3name[c.op], (d + " (residual)").c_str(), back, want, sc, 8.0L * (A.r + 8));
        }
    }
}

// ------------------------------------------------------------------ environment of the library
struct Env { int nproc, maxproc, elems, policy; bool set_ac, set_cfg, set_cache; int mb, nb, kb, lb; size_t cmem, l1; };
static inline int env_threads(const Env &e) { return e.maxproc > 0 && e.maxproc < e.nproc ? e.maxproc : e.nproc; }
static const char *policies[] = {"", "B", "T", "BR", "BZ", "TR", "TZ", "BR2", "BZ2", "TR2", "TZ2"};

static inline void gen_ac_env(Env &e, int typical_elems) {
    e.nproc = sim::PC("nproc", {1, 2, 3, 4, 5, 8, 12, 2, 3, 4});
    e.maxproc = sim::PC("maxproc", {0, 1, 2, 3, 4, 6, 16, 0});
    int ek = sim::P("elemk", 0, 5);
    e.elems = ek == 0 ? sim::P("elems", 1, 6) : ek < 4 ? 1 + typical_elems / sim::PC("elems", {1, 2, 3, 5, 9, 17, 33}) : sim::P("elems", 1, typical_elems + 1);
    if (typical_elems > 2000 && e.elems < typical_elems / 100) e.elems = typical_elems / 100;   // bounds the number of tasks of one run
    e.policy = sim::P("policy", 0, 10);
    char b[128];
    snprintf(b, sizeof b, "%d,%d,%s", e.elems, e.maxproc, policies[e.policy]);
    sim::set_nproc(e.nproc);
    sim::env_set("ARMAS_AC_CONFIG", b);
    sim::describe("nproc=%d ARMAS_AC_CONFIG=%s ", e.nproc, b);
}
// block size settings: usual, wild (any three values), fixed sizes that fill the buffer exactly, malformed strings
static inline void gen_blk_env(Env &e) {
    e.lb = 64; e.set_cfg = sim::PF("setcfg", .7); e.set_cache = sim::PF("setcache", .5);
    char b[128];
    const char *cachev = NULL;
    if (e.set_cache) {
        static const char *c[] = {"4096,1024", "4k,2k", "8k,1k", "16k,4k", "64k,8k", "1m,32k", "5000,1500", "4k,64k"};
        cachev = c[sim::P("cache", 0, 7)];
    }
    if (e.set_cfg) {
        int kind = sim::PC("cfgkind", {0, 0, 0, 0, 1, 1, 2, 2, 3});
        static char fit[32];
        int b1 = sim::PC("b1min", {1024, 8, 64, 1}), b2 = sim::PC("b2min", {256, 8, 32, 2, 1, 5});
        e.lb = sim::PC("lb", {1, 2, 3, 4, 5, 8, 12, 16, 32, 64});
        bool fixed = sim::PF("fixed", .3);
        if (kind == 1) { e.mb = sim::P("mbw", 1, 100); e.nb = sim::P("nbw", 1, 100); e.kb = sim::P("kbw", 1, 200); }
        else if (kind == 2) {   // (mb + c*nb)*kb items are all there is
            e.mb = 4 * sim::P("mb4", 1, 8); e.nb = 4 * sim::P("nb4", 1, 8); e.kb = 8 * sim::P("kb8", 1, 12); fixed = true;
            size_t sz = (size_t)(e.mb + sim::P("three", 1, 2) * e.nb) * e.kb * 8 - (sim::PF("less", .3) ? 8 : 0);
            snprintf(fit, sizeof fit, "%zu,2048", sz); cachev = fit;
        } else {
            e.nb = sim::PC("nb", {4, 8, 16, 24, 32, 64});
            e.mb = e.nb; if (sim::PF("mbsmall", .4)) e.mb = e.nb / sim::PC("mbdiv", {1, 2, 4}) + sim::P("mbodd", 0, 1);
            if (e.mb > e.nb) e.mb = e.nb;
            e.kb = e.nb * sim::PC("kbmul", {1, 2, 3, 5}) + sim::P("kbodd", 0, 3);
        }
        snprintf(b, sizeof b, "%d,%d,%d,%d,%d,%d%s", e.mb, e.nb, e.kb, e.lb, b1, b2, fixed ? ",y" : "");
        if (kind == 3) {
            static const char *odd[] = {"", "16", "16,16,", ",,,3", "0,0,0,0,0,0", "-4,-4,-8,-1,-3,-9,y", "abc,8,8", " 12 , 8,40,4", "8,8,8,1,1,0,n", "7,5,3,2,1,1,yes,11,12", "1,1,1,1,1,1,1"};
            snprintf(b, sizeof b, "%s", odd[sim::P("oddcfg", 0, 10)]);
        }
        sim::env_set("ARMAS_CONFIG", b);
        sim::describe("ARMAS_CONFIG=%s ", b);
    }
    if (cachev) {
        sim::env_set("ARMAS_CACHE", cachev);
        sim::describe("ARMAS_CACHE=%s ", cachev);
    }
}
static const char *ac_names[] = {"SIMPLE", "WORKERS", "TRANSIENT"};
#endif
