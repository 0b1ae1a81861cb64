// Operation table (see ops.h).
#include "ops.h"
using namespace sim;
extern "C" int armas_iamin(const armas_dense_t *, armas_conf_t *);   // exported, not declared in a header

namespace {
// ------------------------------------------------------------------ helpers
typedef std::shared_ptr<Operand> OpP;
double rnd() { return 2 * wrng.unit() - 1; }
int maxi(int a, int b) { return a > b ? a : b; }
int mini(int a, int b) { return a < b ? a : b; }
const char *fl(int flags, char *b) {
    b[0] = 0;
    if (flags & ARMAS_UPPER) strcat(b, " UPPER"); if (flags & ARMAS_LOWER) strcat(b, " LOWER");
    if (flags & ARMAS_LEFT) strcat(b, " LEFT"); if (flags & ARMAS_RIGHT) strcat(b, " RIGHT");
    if (flags & ARMAS_TRANSA) strcat(b, " TRANSA"); if (flags & ARMAS_TRANSB) strcat(b, " TRANSB");
    if (flags & ARMAS_UNIT) strcat(b, " UNIT"); if (flags & ARMAS_SYMM) strcat(b, " SYMM");
    if (flags & ARMAS_WANTU) strcat(b, " WANTU"); if (flags & ARMAS_WANTV) strcat(b, " WANTV");
    if (flags & ARMAS_WANTQ) strcat(b, " WANTQ"); if (flags & ARMAS_WANTP) strcat(b, " WANTP");
    if (flags & ARMAS_MULTQ) strcat(b, " MULTQ"); if (flags & ARMAS_MULTP) strcat(b, " MULTP");
    return b;
}
void setdesc(DOp &op, int r, int c, int k, int flags) {
    char b[200], f[160];
    snprintf(b, sizeof b, "%s %dx%d", op.name.c_str(), r, c);
    op.desc = b;
    if (k >= 0) op.desc += "x" + std::to_string(k);
    op.desc += fl(flags, f);
}
int uplo() { return PF("upper", .5) ? ARMAS_UPPER : ARMAS_LOWER; }
void poison_tri(Operand &o, int tri) {  // strictly lower (ARMAS_LOWER) or strictly upper part becomes NaN
    for (int j = 0; j < o.cols(); j++) for (int i = 0; i < o.rows(); i++) if (tri == ARMAS_LOWER ? i > j : i < j) o.at(i, j) = NAN;
}
int other(int tri) { return tri == ARMAS_UPPER ? ARMAS_LOWER : ARMAS_UPPER; }
Mat tri_part(const Mat &a, int tri, bool unit = false) { return tri == ARMAS_UPPER ? triu(a, unit) : tril(a, unit); }
LD tol(int n, LD c = 30) { return c * (n + 4) * EPS; }
void fill_general(Operand &o, int kind) {
    // 0,1: uniform; 2: graded columns; 3: graded rows; 4: low rank plus noise; 5: many zeros; 6: scaled
    int m = o.rows(), n = o.cols();
    double s = 1;
    if (kind == 6) s = ldexp(1.0, (int)wrng.below(80) - 40);
    if (kind == 4) {
        int r = 1 + (int)wrng.below(3);
        std::vector<double> u(m * r), v(n * r);
        for (auto &x : u) x = rnd(); for (auto &x : v) x = rnd();
        o.fill([&](int i, int j) { double t = 0; for (int k = 0; k < r; k++) t += u[i * r + k] * v[j * r + k]; return t; });
        return;
    }
    o.fill([&](int i, int j) {
        double x = rnd() * s;
        if (kind == 2) x *= ldexp(1.0, -(j % 30));
        if (kind == 3) x *= ldexp(1.0, -(i % 30));
        if (kind == 5 && wrng.below(3)) x = 0;
        return x;
    });
}
// symmetric positive definite: A = G G^T / n + d I, only tri stored, the rest poisoned
void fill_spd(Operand &o, int tri, bool poison) {
    int n = o.rows();
    double s = ldexp(1.0, (int)wrng.below(21) - 10);
    Mat g(n, n); for (auto &x : g.v) x = rnd();
    Mat a = mul(g, tr(g));
    double shift = wrng.below(3) == 0 ? 1e-3 : 0.5;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = s * (a(i, j) / maxi(n, 1) + (i == j ? shift : 0));
    o.set(a);
    if (poison) poison_tri(o, other(tri));
}
Mat permute_rows(Mat a, const int *p, int n, bool forward) {
    for (int t = 0; t < n; t++) {
        int k = forward ? t : n - 1 - t, q = p[k] - 1;
        if (p[k] <= 0 || q == k) continue;
        if (q >= a.r) violation("wrong-result", "pivot", "pivot %d is %d, outside 1..%d", k, p[k], a.r);
        for (int j = 0; j < a.c; j++) std::swap(a(k, j), a(q, j));
    }
    return a;
}
Mat permute_sym(Mat a, const int *p, int n, bool forward) { return permute_rows(tr(permute_rows(tr(permute_rows(a, p, n, forward)), p, n, forward)), p, 0, forward); }
void random_pivots(Piv &p) { for (int i = 0; i < p.n; i++) p.idx[i] = i + 1 + (int)wrng.below(p.n - i); }
Mat diag_of(const Mat &a) { int n = mini(a.r, a.c); Mat d(n, n); for (int i = 0; i < n; i++) d(i, i) = a(i, i); return d; }
Mat vec_of(const Operand &o) { return vmat(o); }

// apply H = I - tau v v^T from the left
void house_left(Mat &c, const std::vector<LD> &v, LD tau) {
    for (int j = 0; j < c.c; j++) {
        LD s = 0; for (int i = 0; i < c.r; i++) s += v[i] * c(i, j);
        s *= tau;
        if (s != 0) for (int i = 0; i < c.r; i++) c(i, j) -= s * v[i];
    }
}
enum { QR, QL, LQ, RQ };
std::vector<LD> reflector(int kind, const Mat &a, int k) {
    int m = a.r, n = a.c;
    std::vector<LD> v(kind == QR || kind == QL ? m : n, 0.0L);
    switch (kind) {
    case QR: v[k] = 1; for (int i = k + 1; i < m; i++) v[i] = a(i, k); break;
    case QL: { int u = m - n + k; v[u] = 1; for (int i = 0; i < u; i++) v[i] = a(i, k); break; }
    case LQ: v[k] = 1; for (int j = k + 1; j < n; j++) v[j] = a(k, j); break;
    case RQ: { int u = n - m + k; v[u] = 1; for (int j = 0; j < u; j++) v[j] = a(k, j); break; }
    }
    return v;
}
// explicit Q; for QR/RQ the product H0 H1 .. , for QL/LQ the product .. H1 H0 (first..first+count-1)
Mat build_q(int kind, const Mat &a, const Mat &tau, int first, int count) {
    int order = kind == QR || kind == QL ? a.r : a.c;
    Mat q = ident(order);
    for (int t = 0; t < count; t++) {
        int k = kind == QR || kind == RQ ? first + count - 1 - t : first + t;
        house_left(q, reflector(kind, a, k), tau(k, 0));
    }
    return q;
}
// reflectors written into a (exactly orthogonal up to rounding) and tau
void gen_reflectors(int kind, Operand &a, Operand &tau, int nref) {
    for (int k = 0; k < nref; k++) {
        Mat am = a.mat();
        std::vector<LD> v = reflector(kind, am, k);
        LD s = 0; for (auto x : v) s += x * x;
        double t = wrng.below(8) == 0 ? 0.0 : (double)(2.0L / s);
        vat(tau, k) = t;
    }
}
void check_orth_cols(const char *site, const char *what, const Mat &q) {
    check_norm(site, (std::string(what) + ": columns not orthonormal").c_str(), maxabs(sub(mul(tr(q), q), ident(q.c))), tol(q.r, 60));
}
void check_zero_free(const char *) {}
int dimsmall(const char *n, int maxd) { return gen_dim(n, maxd); }

// ------------------------------------------------------------------ BLAS level 2 and 3
template <int OP> void g_b3(DOp &op, const Layout &l, int maxd) {
    auto c = std::make_shared<B3>();
    gen_b3(*c, OP, maxd, l);
    op.name = b3name[OP]; op.desc = b3desc(*c);
    auto sh = [c](Operand *o) { return std::shared_ptr<Operand>(c, o); };
    op.all.push_back(sh(&c->A)); op.in.push_back(&c->A);
    if (OP <= B3_SYMM) { op.all.push_back(sh(&c->B)); op.in.push_back(&c->B); }
    op.all.push_back(sh(&c->C)); op.out.push_back(&c->C);
    op.call = [c](armas_conf_t *cf) { return run_b3(*c, cf); };
    op.verify = [c](int) { verify_b3(*c); };
}
struct Scal { double a, b; };
Scal scal() { Scal s; s.a = gen_scalar("alpha"); s.b = gen_scalar("beta"); return s; }

void gx_update_sym(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), k = gen_inner("k", maxd), flags = uplo();
    Scal s = scal();
    if (PF("trans", .5)) flags |= ARMAS_TRANS;
    bool t = flags & ARMAS_TRANS;
    Operand &A = op.mk("A", t ? k : n, t ? n : k, l, false), &C = op.mk("C", n, n, l, true);
    poison_tri(C, other(flags & (ARMAS_UPPER | ARMAS_LOWER)));
    op.keep.push_back({&C, other(flags & (ARMAS_UPPER | ARMAS_LOWER))});
    setdesc(op, n, n, k, flags);
    op.call = [&A, &C, s, flags](armas_conf_t *cf) { return armas_update_sym(s.b, &C.m, s.a, &A.m, flags, cf); };
    op.verify = [&op, &A, &C, s, flags, t, k](int) {
        int tri = flags & (ARMAS_UPPER | ARMAS_LOWER);
        Mat a = A.saved(), c0 = tri_part(C.saved(), tri), g = tri_part(C.mat(), tri);
        if (t) a = tr(a);
        Mat p = tri_part(mul(a, tr(a)), tri), pa = tri_part(mul(absm(a), tr(absm(a))), tri);
        check_close("update_sym", op.desc.c_str(), g, add(scaled(c0, s.b), p, s.a), add(scaled(absm(c0), fabs(s.b)), pa, fabs(s.a)), 4.0L * (k + 8));
    };
}
void gx_update2_sym(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), k = gen_inner("k", maxd), flags = uplo();
    Scal s = scal();
    if (PF("trans", .5)) flags |= ARMAS_TRANS;
    bool t = flags & ARMAS_TRANS;
    Operand &A = op.mk("A", t ? k : n, t ? n : k, l, false), &B = op.mk("B", t ? k : n, t ? n : k, l, false), &C = op.mk("C", n, n, l, true);
    poison_tri(C, other(flags & (ARMAS_UPPER | ARMAS_LOWER)));
    op.keep.push_back({&C, other(flags & (ARMAS_UPPER | ARMAS_LOWER))});
    setdesc(op, n, n, k, flags);
    op.call = [&A, &B, &C, s, flags](armas_conf_t *cf) { return armas_update2_sym(s.b, &C.m, s.a, &A.m, &B.m, flags, cf); };
    op.verify = [&op, &A, &B, &C, s, flags, t, k](int) {
        int tri = flags & (ARMAS_UPPER | ARMAS_LOWER);
        Mat a = A.saved(), b = B.saved(), c0 = tri_part(C.saved(), tri), g = tri_part(C.mat(), tri);
        if (t) { a = tr(a); b = tr(b); }
        Mat p = tri_part(add(mul(a, tr(b)), mul(b, tr(a))), tri), pa = tri_part(add(mul(absm(a), tr(absm(b))), mul(absm(b), tr(absm(a)))), tri);
        check_close("update2_sym", op.desc.c_str(), g, add(scaled(c0, s.b), p, s.a), add(scaled(absm(c0), fabs(s.b)), pa, fabs(s.a)), 4.0L * (2 * k + 8));
    };
}
void gx_update_trm(DOp &op, const Layout &l, int maxd) {
    int m = gen_dim("m", maxd), n = PF("square", .5) ? m : gen_dim("n", maxd), k = gen_inner("k", maxd), flags = uplo();
    Scal s = scal();
    if (PF("ta", .4)) flags |= ARMAS_TRANSA;
    if (PF("tb", .4)) flags |= ARMAS_TRANSB;
    bool ta = flags & ARMAS_TRANSA, tb = flags & ARMAS_TRANSB;
    Operand &A = op.mk("A", ta ? k : m, ta ? m : k, l, false), &B = op.mk("B", tb ? n : k, tb ? k : n, l, false), &C = op.mk("C", m, n, l, true);
    int tri = flags & (ARMAS_UPPER | ARMAS_LOWER);
    poison_tri(C, other(tri));
    op.keep.push_back({&C, other(tri)});
    setdesc(op, m, n, k, flags);
    op.call = [&A, &B, &C, s, flags](armas_conf_t *cf) { return armas_update_trm(s.b, &C.m, s.a, &A.m, &B.m, flags, cf); };
    op.verify = [&op, &A, &B, &C, s, tri, ta, tb, k](int) {
        Mat a = A.saved(), b = B.saved(), c0 = tri_part(C.saved(), tri), g = tri_part(C.mat(), tri);
        if (ta) a = tr(a);
        if (tb) b = tr(b);
        check_close("update_trm", op.desc.c_str(), g, add(scaled(c0, s.b), tri_part(mul(a, b), tri), s.a), add(scaled(absm(c0), fabs(s.b)), tri_part(mul(absm(a), absm(b)), tri), fabs(s.a)), 4.0L * (k + 8));
    };
}
// y = beta y + alpha op(A) x; EXT selects the extended precision entry point
template <int EXT> void g_mvmult(DOp &op, const Layout &l, int maxd) {
    int m = gen_dim("m", maxd), n = gen_dim("n", maxd), flags = PF("trans", .5) ? ARMAS_TRANS : 0;
    Scal s = scal();
    bool t = flags;
    if (PF("empty", .04)) (t ? m : n) = 0;
    Operand &A = op.mk("A", m, n, l, false), &x = op.mkv("x", t ? m : n, l, false, 1), &y = op.mkv("y", t ? n : m, l, true, 1);
    setdesc(op, m, n, -1, flags);
    op.call = [&A, &x, &y, s, flags](armas_conf_t *cf) { return EXT ? armas_ext_mvmult(s.b, &y.m, s.a, &A.m, &x.m, flags, cf) : armas_mvmult(s.b, &y.m, s.a, &A.m, &x.m, flags, cf); };
    auto y0 = std::make_shared<Mat>(vmat(y));
    op.verify = [&op, &A, &x, &y, s, t, y0](int) {
        Mat a = A.saved(), xv = vmat(x);
        if (t) a = tr(a);
        check_close(op.name.c_str(), op.desc.c_str(), vmat(y), add(scaled(*y0, s.b), mul(a, xv), s.a), add(scaled(absm(*y0), fabs(s.b)), mul(absm(a), absm(xv)), fabs(s.a)), 4.0L * (a.c + 8));
    };
}
template <int EXT> void g_mvmult_sym(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = uplo();
    Scal s = scal();
    Operand &A = op.mk("A", n, n, l, false), &x = op.mkv("x", n, l, false, 1), &y = op.mkv("y", n, l, true, 1);
    poison_tri(A, other(flags));
    setdesc(op, n, n, -1, flags);
    op.call = [&A, &x, &y, s, flags](armas_conf_t *cf) { return EXT ? armas_ext_mvmult_sym(s.b, &y.m, s.a, &A.m, &x.m, flags, cf) : armas_mvmult_sym(s.b, &y.m, s.a, &A.m, &x.m, flags, cf); };
    auto y0 = std::make_shared<Mat>(vmat(y));
    op.verify = [&op, &A, &x, &y, s, flags, y0](int) {
        Mat a = symm_from(A.saved(), flags & ARMAS_UPPER), xv = vmat(x);
        check_close(op.name.c_str(), op.desc.c_str(), vmat(y), add(scaled(*y0, s.b), mul(a, xv), s.a), add(scaled(absm(*y0), fabs(s.b)), mul(absm(a), absm(xv)), fabs(s.a)), 4.0L * (a.c + 8));
    };
}
// KIND 0 multiply, 1 solve
template <int EXT, int SOLVE> void g_mv_trm(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = uplo();
    if (PF("unit", .3)) flags |= ARMAS_UNIT;
    if (PF("trans", .5)) flags |= ARMAS_TRANS;
    double alpha = gen_scalar("alpha");
    Operand &A = op.mk("A", n, n, l, false), &x = op.mkv("x", n, l, true, 1);
    fill_tri(A, flags & ARMAS_UPPER, flags & ARMAS_UNIT, true);
    setdesc(op, n, n, -1, flags);
    op.call = [&A, &x, alpha, flags](armas_conf_t *cf) {
        if (EXT) return SOLVE ? armas_ext_mvsolve_trm(&x.m, alpha, &A.m, flags, cf) : armas_ext_mvmult_trm(&x.m, alpha, &A.m, flags, cf);
        return SOLVE ? armas_mvsolve_trm(&x.m, alpha, &A.m, flags, cf) : armas_mvmult_trm(&x.m, alpha, &A.m, flags, cf);
    };
    if (EXT && SOLVE) op.callw = [&A, &x, alpha, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_ext_mvsolve_trm_w(&x.m, alpha, &A.m, flags, w, cf); };
    auto x0 = std::make_shared<Mat>(vmat(x));
    op.verify = [&op, &A, &x, alpha, flags, x0](int) {
        Mat a = tri_of(A.saved(), flags);
        if (flags & ARMAS_TRANS) a = tr(a);
        Mat g = vmat(x);
        if (SOLVE) check_close(op.name.c_str(), op.desc.c_str(), mul(a, g), scaled(*x0, alpha), add(scaled(absm(*x0), fabs(alpha)), mul(absm(a), absm(g))), 8.0L * (a.c + 8));
        else check_close(op.name.c_str(), op.desc.c_str(), g, scaled(mul(a, *x0), alpha), scaled(mul(absm(a), absm(*x0)), fabs(alpha)), 4.0L * (a.c + 8));
    };
}
template <int EXT> void g_mvupdate(DOp &op, const Layout &l, int maxd) {
    int m = gen_dim("m", maxd), n = gen_dim("n", maxd);
    Scal s = scal();
    Operand &x = op.mkv("x", m, l, false, 1), &y = op.mkv("y", n, l, false, 1), &A = op.mk("A", m, n, l, true);
    setdesc(op, m, n, -1, 0);
    op.call = [&A, &x, &y, s](armas_conf_t *cf) { return EXT ? armas_ext_mvupdate(s.b, &A.m, s.a, &x.m, &y.m, cf) : armas_mvupdate(s.b, &A.m, s.a, &x.m, &y.m, cf); };
    op.verify = [&op, &A, &x, &y, s](int) {
        Mat a0 = A.saved(), p = mul(vmat(x), tr(vmat(y)));
        check_close(op.name.c_str(), op.desc.c_str(), A.mat(), add(scaled(a0, s.b), p, s.a), add(scaled(absm(a0), fabs(s.b)), absm(p), fabs(s.a)), 8);
    };
}
// RANK 1: A += x x^T, 2: A += x y^T + y x^T, 3: triangular part of x y^T
template <int EXT, int RANK> void g_mvupdate_tri(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), m = RANK == 3 && PF("trapez", .5) ? gen_dim("m", maxd) : n, flags = uplo();
    Scal s = scal();
    Operand &x = op.mkv("x", m, l, false, 1), &y = op.mkv("y", n, l, false, 1), &A = op.mk("A", m, n, l, true);
    poison_tri(A, other(flags));
    op.keep.push_back({&A, other(flags)});
    setdesc(op, m, n, -1, flags);
    op.call = [&A, &x, &y, s, flags](armas_conf_t *cf) {
        if (RANK == 1) return EXT ? armas_ext_mvupdate_sym(s.b, &A.m, s.a, &x.m, flags, cf) : armas_mvupdate_sym(s.b, &A.m, s.a, &x.m, flags, cf);
        if (RANK == 2) return EXT ? armas_ext_mvupdate2_sym(s.b, &A.m, s.a, &x.m, &y.m, flags, cf) : armas_mvupdate2_sym(s.b, &A.m, s.a, &x.m, &y.m, flags, cf);
        return armas_mvupdate_trm(s.b, &A.m, s.a, &x.m, &y.m, flags, cf);
    };
    op.verify = [&op, &A, &x, &y, s, flags](int) {
        Mat a0 = tri_part(A.saved(), flags), p, xv = vmat(x), yv = vmat(y), pa;
        if (RANK == 1) { p = mul(xv, tr(xv)); pa = absm(p); }
        if (RANK == 2) { p = add(mul(xv, tr(yv)), mul(yv, tr(xv))); pa = add(mul(absm(xv), tr(absm(yv))), mul(absm(yv), tr(absm(xv)))); }
        if (RANK == 3) { p = mul(xv, tr(yv)); pa = absm(p); }
        p = tri_part(p, flags); pa = tri_part(pa, flags);
        check_close(op.name.c_str(), op.desc.c_str(), tri_part(A.mat(), flags), add(scaled(a0, s.b), p, s.a), add(scaled(absm(a0), fabs(s.b)), pa, fabs(s.a)), 8);
    };
}
// ------------------------------------------------------------------ extended precision level 3
template <int OP> void g_ext_b3(DOp &op, const Layout &l, int maxd) {
    auto c = std::make_shared<B3>();
    gen_b3(*c, OP, maxd, l);
    op.name = std::string("ext_") + b3name[OP]; op.desc = "ext_" + b3desc(*c);
    auto sh = [c](Operand *o) { return std::shared_ptr<Operand>(c, o); };
    op.all.push_back(sh(&c->A)); op.in.push_back(&c->A);
    if (OP <= B3_SYMM) { op.all.push_back(sh(&c->B)); op.in.push_back(&c->B); }
    op.all.push_back(sh(&c->C)); op.out.push_back(&c->C);
    op.call = [c](armas_conf_t *cf) {
        switch (OP) {
        case B3_GEMM: return armas_ext_mult(c->beta, &c->C.m, c->alpha, &c->A.m, &c->B.m, c->flags, cf);
        case B3_SYMM: return armas_ext_mult_sym(c->beta, &c->C.m, c->alpha, &c->A.m, &c->B.m, c->flags, cf);
        case B3_TRMM: return armas_ext_mult_trm(&c->C.m, c->alpha, &c->A.m, c->flags, cf);
        default: return armas_ext_solve_trm(&c->C.m, c->alpha, &c->A.m, c->flags, cf);
        }
    };
    if (OP == B3_TRSM) op.callw = [c](armas_wbuf_t *w, armas_conf_t *cf) { return armas_ext_solve_trm_w(&c->C.m, c->alpha, &c->A.m, c->flags, w, cf); };
    op.verify = [c](int) { verify_b3(*c); };
}
void g_ext_adot(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd); double alpha = gen_scalar("alpha");
    Operand &x = op.mkv("x", n, l, false, 1), &y = op.mkv("y", n, l, false, 1);
    auto r = std::make_shared<double>(0.0); op.scal.push_back(r);
    setdesc(op, n, 1, -1, 0);
    op.call = [&x, &y, alpha, r](armas_conf_t *cf) { *r = 0.25; return armas_ext_adot(r.get(), alpha, &x.m, &y.m, cf); };
    op.verify = [&op, &x, &y, alpha, r](int) {
        // products of doubles are exact in quadruple precision; long double would not be precise enough
        __float128 q = 0; LD a = 0; Mat xv = vmat(x), yv = vmat(y);
        for (int i = 0; i < xv.r; i++) { q += (__float128)alpha * ((__float128)xv(i, 0) * (__float128)yv(i, 0)); a += fabsl(alpha * xv(i, 0) * yv(i, 0)); }
        LD s = (LD)q;
        check_norm(op.name.c_str(), op.desc.c_str(), fabsl((LD)((__float128)*r - q)), 4 * EPS * (fabsl(s) + a * xv.r * EPS * 8) + 1e-300L);
    };
}
void g_ext_axpby(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd); Scal s = scal();
    Operand &x = op.mkv("x", n, l, false, 1), &y = op.mkv("y", n, l, true, 1);
    setdesc(op, n, 1, -1, 0);
    auto y0 = std::make_shared<Mat>(vmat(y));
    op.call = [&x, &y, s](armas_conf_t *cf) { return armas_ext_axpby(s.b, &y.m, s.a, &x.m, cf); };
    op.verify = [&op, &x, &y, s, y0](int) {
        Mat xv = vmat(x);
        check_close(op.name.c_str(), op.desc.c_str(), vmat(y), add(scaled(*y0, s.b), xv, s.a), add(scaled(absm(*y0), fabs(s.b)), absm(xv), fabs(s.a)), 8);
    };
}

// ------------------------------------------------------------------ LU
void g_lufactor(DOp &op, const Layout &l, int maxd) {
    int m = gen_dim("m", maxd), n = PF("square", .5) ? m : gen_dim("n", maxd);
    bool piv = PF("pivot", .8);
    Operand &A = op.mk("A", m, n, l, true);
    int k = mini(m, n);
    if (piv) { fill_general(A, P("matkind", 0, 6) % 7 == 4 ? 0 : P("mk2", 0, 3)); }
    else { for (int i = 0; i < k; i++) A.at(i, i) += A.at(i, i) < 0 ? -(n + m) : n + m; }
    Piv *p = piv ? &op.mkp("P", k, true) : 0;
    // a zero column among the first k makes an exactly zero pivot, which has to be reported
    int zc = piv && k && PF("zerocolumn", .12) ? (int)P("zcol", 0, k - 1) : -1;
    for (int i = 0; zc >= 0 && i < m; i++) A.at(i, zc) = 0;
    setdesc(op, m, n, -1, 0); if (!piv) op.desc += " no-pivot";
    if (zc >= 0) op.desc += " zero column " + std::to_string(zc);
    op.call = [&A, &op, p, zc](armas_conf_t *cf) {
        int rc = armas_lufactor(&A.m, p ? &p->p : 0, cf);
        if (zc < 0) return rc;
        if (rc >= 0 && !op_reshaped) violation("singular-accepted", "lufactor", "%s: returned %d for an exactly singular matrix", op.desc.c_str(), rc);
        else if (cf && cf->error != ARMAS_ESINGULAR) return rc;
        if (cf) cf->error = 0;
        return 0;
    };
    op.verify = [&op, &A, p, m, n, k](int) {
        Mat a0 = A.saved(), f = A.mat();
        if (p) { for (int i = 0; i < k; i++) if (p->idx[i] != 0 && (p->idx[i] < i + 1 || p->idx[i] > m)) violation("wrong-result", "lufactor", "%s: pivot %d is %d", op.desc.c_str(), i, p->idx[i]);
                 a0 = permute_rows(a0, p->idx, k, true); }
        Mat L = tril(sub(f, 0, 0, m, k), true), U = triu(sub(f, 0, 0, k, n));
        check_close("lufactor", op.desc.c_str(), mul(L, U), a0, add(absm(a0), mul(absm(L), absm(U))), 8.0L * (k + 8));
        if (p) for (int j = 0; j < k; j++) for (int i = j + 1; i < m; i++) if (!(fabsl(L(i, j)) <= 1.0L + 1e-10L)) violation("wrong-result", "lufactor", "%s: multiplier (%d,%d) is %.6Lg, partial pivoting keeps it at most 1", op.desc.c_str(), i, j, L(i, j));
    };
}
void g_lusolve(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), k = gen_dim("k", maxd), flags = PF("trans", .5) ? ARMAS_TRANS : 0;
    bool piv = PF("pivot", .8);
    Operand &A = op.mk("A", n, n, l, false), &B = op.mk("B", n, k, l, true);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { if (i == j) A.at(i, j) = 1.0 + wrng.unit(); else A.at(i, j) *= 2.0 / n; }
    Piv *p = piv ? &op.mkp("P", n, false) : 0;
    if (p) random_pivots(*p);
    setdesc(op, n, n, k, flags);
    op.call = [&A, &B, p, flags](armas_conf_t *cf) { return armas_lusolve(&B.m, &A.m, p ? &p->p : 0, flags, cf); };
    op.verify = [&op, &A, &B, p, flags, n](int) {
        Mat f = A.saved(), L = tril(f, true), U = triu(f), b = B.saved(), x = B.mat();
        Mat a = mul(L, U), aa = mul(absm(L), absm(U));
        if (p) { a = permute_rows(a, p->idx, n, false); aa = permute_rows(aa, p->idx, n, false); }
        if (flags & ARMAS_TRANS) { a = tr(a); aa = tr(aa); }
        check_norm("lusolve", op.desc.c_str(), fro(sub(mul(a, x), b)), tol(n) * (fro(b) + fro(aa) * fro(x)));
    };
}
void g_luinverse(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd);
    Operand &A = op.mk("A", n, n, l, true);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { if (i == j) A.at(i, j) = 1.0 + wrng.unit(); else A.at(i, j) *= 2.0 / n; }
    Piv &p = op.mkp("P", n, false);
    random_pivots(p);
    setdesc(op, n, n, -1, 0);
    op.call = [&A, &p](armas_conf_t *cf) { return armas_luinverse(&A.m, &p.p, cf); };
    op.callw = [&A, &p](armas_wbuf_t *w, armas_conf_t *cf) { return armas_luinverse_w(&A.m, &p.p, w, cf); };
    op.verify = [&op, &A, &p, n](int) {
        Mat f = A.saved(), L = tril(f, true), U = triu(f);
        Mat a = permute_rows(mul(L, U), p.idx, n, false), x = A.mat();
        check_norm("luinverse", op.desc.c_str(), fro(sub(mul(a, x), ident(n))), tol(n, 60) * fro(mul(absm(L), absm(U))) * fro(x));
    };
}
// ------------------------------------------------------------------ Cholesky, LDL, Bunch-Kaufman
void g_cholesky(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = uplo(), variant = P("variant", 0, 2);
    Operand &A = op.mk("A", n, n, l, true);
    fill_spd(A, flags, variant != 2);
    if (variant != 2) op.keep.push_back({&A, other(flags)});
    Piv *p = variant == 2 ? &op.mkp("P", n, true) : 0;
    op.pos_ok = variant == 2;
    setdesc(op, n, n, -1, flags); if (p) op.desc += " pivoting";
    op.call = [&A, p, flags, variant](armas_conf_t *cf) { return variant == 0 ? armas_cholesky(&A.m, flags, cf) : armas_cholfactor(&A.m, p ? &p->p : ARMAS_NOPIVOT, flags, cf); };
    if (p) op.callw = [&A, p, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_cholfactor_w(&A.m, &p->p, flags, w, cf); };
    op.verify = [&op, &A, p, flags, n](int rc) {
        Mat a = symm_from(A.saved(), flags & ARMAS_UPPER), f = tri_part(A.mat(), flags);
        Mat ll = flags & ARMAS_UPPER ? mul(tr(f), f) : mul(f, tr(f));
        if (p) a = permute_sym(a, p->idx, n, true);
        if (rc > 0) { violation("wrong-result", "cholfactor", "%s: rank %d reported for a positive definite matrix", op.desc.c_str(), rc); }
        check_norm("cholfactor", op.desc.c_str(), fro(sub(ll, a)), tol(n) * fro(a));
        for (int i = 0; i < n; i++) if (!(f(i, i) > 0)) violation("wrong-result", "cholfactor", "%s: diagonal element %d is %.6Lg", op.desc.c_str(), i, f(i, i));
        if (p) for (int i = 1; i < n; i++) if (f(i, i) > f(i - 1, i - 1) * (1 + 1e-6L)) violation("wrong-result", "cholfactor", "%s: pivoted diagonal not decreasing at %d", op.desc.c_str(), i);
    };
}
void g_cholsolve(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), k = gen_dim("k", maxd), flags = uplo();
    bool piv = PF("pivot", .4);
    Operand &A = op.mk("A", n, n, l, false), &B = op.mk("B", n, k, l, true);
    fill_tri(A, flags & ARMAS_UPPER, false, true);
    for (int i = 0; i < n; i++) A.at(i, i) = fabs(A.at(i, i));
    Piv *p = piv ? &op.mkp("P", n, false) : 0;
    if (p) random_pivots(*p);
    setdesc(op, n, n, k, flags); if (p) op.desc += " pivoting";
    op.call = [&A, &B, p, flags](armas_conf_t *cf) { return armas_cholsolve(&B.m, &A.m, p ? &p->p : ARMAS_NOPIVOT, flags, cf); };
    op.verify = [&op, &A, &B, p, flags, n](int) {
        Mat f = tri_part(A.saved(), flags), b = B.saved(), x = B.mat();
        Mat a = flags & ARMAS_UPPER ? mul(tr(f), f) : mul(f, tr(f));
        if (p) a = permute_sym(a, p->idx, n, false);
        check_norm("cholsolve", op.desc.c_str(), fro(sub(mul(a, x), b)), tol(n) * (fro(b) + fro(a) * n * fro(x)));
    };
}
void g_cholupdate(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = uplo();
    Operand &A = op.mk("A", n, n, l, true), &x = op.mkv("x", n, l, true, 1);
    fill_tri(A, flags & ARMAS_UPPER, false, true);
    for (int i = 0; i < n; i++) A.at(i, i) = fabs(A.at(i, i));
    op.keep.push_back({&A, other(flags)});
    setdesc(op, n, n, -1, flags);
    auto x0 = std::make_shared<Mat>(vmat(x));
    op.call = [&A, &x, flags](armas_conf_t *cf) { return armas_cholupdate(&A.m, &x.m, flags, cf); };
    op.verify = [&op, &A, x0, flags, n](int) {
        Mat f0 = tri_part(A.saved(), flags), f = tri_part(A.mat(), flags);
        Mat a0 = flags & ARMAS_UPPER ? mul(tr(f0), f0) : mul(f0, tr(f0)), a = flags & ARMAS_UPPER ? mul(tr(f), f) : mul(f, tr(f));
        a0 = add(a0, mul(*x0, tr(*x0)));
        check_norm("cholupdate", op.desc.c_str(), fro(sub(a, a0)), tol(n, 60) * fro(a0));
    };
}
void g_cholinverse(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = uplo();
    Operand &A = op.mk("A", n, n, l, true);
    fill_tri(A, flags & ARMAS_UPPER, false, true);
    for (int i = 0; i < n; i++) A.at(i, i) = fabs(A.at(i, i));
    op.keep.push_back({&A, other(flags)});
    setdesc(op, n, n, -1, flags);
    op.call = [&A, flags](armas_conf_t *cf) { return armas_cholinverse(&A.m, flags, cf); };
    op.callw = [&A, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_cholinverse_w(&A.m, flags, w, cf); };
    op.verify = [&op, &A, flags, n](int) {
        Mat f = tri_part(A.saved(), flags), x = symm_from(A.mat(), flags & ARMAS_UPPER);
        Mat a = flags & ARMAS_UPPER ? mul(tr(f), f) : mul(f, tr(f));
        check_norm("cholinverse", op.desc.c_str(), fro(sub(mul(a, x), ident(n))), tol(n, 60) * n * fro(a) * fro(x));
    };
}
void g_inverse_trm(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = uplo();
    if (PF("unit", .3)) flags |= ARMAS_UNIT;
    Operand &A = op.mk("A", n, n, l, true);
    fill_tri(A, flags & ARMAS_UPPER, flags & ARMAS_UNIT, true);
    op.keep.push_back({&A, other(flags & (ARMAS_UPPER | ARMAS_LOWER))});
    setdesc(op, n, n, -1, flags);
    op.call = [&A, flags](armas_conf_t *cf) { return armas_inverse_trm(&A.m, flags, cf); };
    op.verify = [&op, &A, flags, n](int) {
        Mat f = tri_of(A.saved(), flags), x = tri_of(A.mat(), flags);
        check_norm("inverse_trm", op.desc.c_str(), fro(sub(mul(f, x), ident(n))), tol(n) * fro(f) * fro(x));
    };
}
// symmetric matrix for LDL without pivoting: diagonally dominant with mixed signs
void fill_sym_dominant(Operand &A, int flags) {
    int n = A.rows();
    for (int i = 0; i < n; i++) A.at(i, i) = (n + wrng.unit()) * (wrng.below(2) ? 1 : -1);
    poison_tri(A, other(flags));
}
Mat ldl_product(const Mat &f, int flags) { Mat L = tri_part(f, flags, true); return mul(mul(L, diag_of(f)), tr(L)); }
Mat ldl_abs(const Mat &f, int flags) { Mat L = absm(tri_part(f, flags, true)); return mul(mul(L, absm(diag_of(f))), tr(L)); }
void g_ldlfactor(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = uplo();
    bool piv = PF("pivot", .6);
    Operand &A = op.mk("A", n, n, l, true);
    fill_sym_dominant(A, flags);
    if (piv) for (int i = 0; i < n; i++) A.at(i, i) *= 1 + 3 * wrng.unit();
    op.keep.push_back({&A, other(flags)});
    Piv *p = piv ? &op.mkp("P", n, true) : 0;
    setdesc(op, n, n, -1, flags); if (p) op.desc += " pivoting";
    op.call = [&A, p, flags](armas_conf_t *cf) { return armas_ldlfactor(&A.m, p ? &p->p : ARMAS_NOPIVOT, flags, cf); };
    op.callw = [&A, p, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_ldlfactor_w(&A.m, p ? &p->p : ARMAS_NOPIVOT, flags, w, cf); };
    op.verify = [&op, &A, p, flags, n](int) {
        Mat a = symm_from(A.saved(), flags & ARMAS_UPPER), f = A.mat();
        if (p) a = permute_sym(a, p->idx, n, flags & ARMAS_LOWER);
        check_norm("ldlfactor", op.desc.c_str(), fro(sub(ldl_product(f, flags), a)), tol(n) * (fro(a) + fro(ldl_abs(f, flags))));
    };
}
void gen_ldl_factors(Operand &A, int flags, bool poison) {
    int n = A.rows();
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) A.at(i, j) = i == j ? (1 + wrng.unit()) * (wrng.below(2) ? 1 : -1) : rnd() * 2 / n;
    if (poison) poison_tri(A, other(flags));
}
void g_ldlsolve(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), k = gen_dim("k", maxd), flags = uplo();
    bool piv = PF("pivot", .6);
    Operand &A = op.mk("A", n, n, l, false), &B = op.mk("B", n, k, l, true);
    gen_ldl_factors(A, flags, true);
    Piv *p = piv ? &op.mkp("P", n, false) : 0;
    if (p) { for (int i = 0; i < n; i++) p->idx[i] = flags & ARMAS_LOWER ? i + 1 + (int)wrng.below(n - i) : 1 + (int)wrng.below(i + 1); }
    setdesc(op, n, n, k, flags); if (p) op.desc += " pivoting";
    op.call = [&A, &B, p, flags](armas_conf_t *cf) { return armas_ldlsolve(&B.m, &A.m, p ? &p->p : ARMAS_NOPIVOT, flags, cf); };
    op.verify = [&op, &A, &B, p, flags, n](int) {
        Mat f = A.saved(), a = ldl_product(f, flags), aa = ldl_abs(f, flags), b = B.saved(), x = B.mat();
        if (p) a = permute_sym(a, p->idx, n, !(flags & ARMAS_LOWER));
        check_norm("ldlsolve", op.desc.c_str(), fro(sub(mul(a, x), b)), tol(n) * (fro(b) + n * fro(aa) * fro(x)));
    };
}
void g_ldlinverse(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = uplo();
    Operand &A = op.mk("A", n, n, l, true);
    gen_ldl_factors(A, flags, true);
    op.keep.push_back({&A, other(flags)});
    Piv &p = op.mkp("P", n, false);
    for (int i = 0; i < n; i++) p.idx[i] = flags & ARMAS_LOWER ? i + 1 + (int)wrng.below(n - i) : 1 + (int)wrng.below(i + 1);
    setdesc(op, n, n, -1, flags);
    op.call = [&A, &p, flags](armas_conf_t *cf) { return armas_ldlinverse(&A.m, &p.p, flags, cf); };
    op.callw = [&A, &p, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_ldlinverse_w(&A.m, &p.p, flags, w, cf); };
    op.verify = [&op, &A, &p, flags, n](int) {
        Mat f = A.saved(), a = permute_sym(ldl_product(f, flags), p.idx, n, !(flags & ARMAS_LOWER)), x = symm_from(A.mat(), flags & ARMAS_UPPER);
        check_norm("ldlinverse", op.desc.c_str(), fro(sub(mul(a, x), ident(n))), tol(n, 60) * n * fro(ldl_abs(f, flags)) * fro(x));
    };
}
// Bunch-Kaufman: factor and solve are checked together against the original matrix
void g_bkfactor(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), k = gen_dim("k", mini(maxd, 12)), flags = uplo(), kind = P("matkind", 0, 3);
    Operand &A = op.mk("A", n, n, l, true), &B = op.mk("B", n, k, l, true);
    // indefinite; kind 1: zero diagonal forces 2x2 blocks, 2: mixed, 3: dominant
    for (int i = 0; i < n; i++) {
        if (n > 1 && (kind == 1 || (kind == 2 && wrng.below(2)))) A.at(i, i) = 0;
        if (kind == 3) A.at(i, i) = (n + 1) * (wrng.below(2) ? 1 : -1);
    }
    poison_tri(A, other(flags));
    op.keep.push_back({&A, other(flags)});
    Piv &p = op.mkp("P", n, true);
    setdesc(op, n, n, k, flags); op.desc += " factor+solve";
    op.call = [&A, &B, &p, flags](armas_conf_t *cf) { int rc = armas_bkfactor(&A.m, &p.p, flags, cf); return rc < 0 ? rc : armas_bksolve(&B.m, &A.m, &p.p, flags, cf); };
    op.verify = [&op, &A, &B, &p, flags, n](int) {
        Mat a = symm_from(A.saved(), flags & ARMAS_UPPER), b = B.saved(), x = B.mat();
        for (int i = 0; i < n; i++) if (p.idx[i] == 0 || abs(p.idx[i]) > n) violation("wrong-result", "bkfactor", "%s: pivot %d is %d", op.desc.c_str(), i, p.idx[i]);
        check_norm("bkfactor+bksolve", op.desc.c_str(), fro(sub(mul(a, x), b)), tol(n, 1000) * (fro(b) + fro(a) * fro(x)));
    };
}
// factor alone, with workspace; verified by reconstructing from the 1x1/2x2 blocks through a long double solve
void g_bkfactor_w(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = uplo(), kind = P("matkind", 0, 3);
    Operand &A = op.mk("A", n, n, l, true);
    for (int i = 0; i < n; i++) {
        if (n > 1 && (kind == 1 || (kind == 2 && wrng.below(2)))) A.at(i, i) = 0;
        if (kind == 3) A.at(i, i) = (n + 1) * (wrng.below(2) ? 1 : -1);
    }
    poison_tri(A, other(flags));
    op.keep.push_back({&A, other(flags)});
    Piv &p = op.mkp("P", n, true);
    setdesc(op, n, n, -1, flags);
    op.call = [&A, &p, flags](armas_conf_t *cf) { return armas_bkfactor(&A.m, &p.p, flags, cf); };
    op.callw = [&A, &p, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_bkfactor_w(&A.m, &p.p, flags, w, cf); };
    op.verify = [&op, &A, &p, flags, n](int) {
        Mat a = symm_from(A.saved(), flags & ARMAS_UPPER), f = A.mat(), r(n, n);
        // rebuild A from the factors: A = P1 L1 P2 L2 ... D ... (LAPACK SYTRF convention)
        Mat D(n, n), M = ident(n);
        bool up = flags & ARMAS_UPPER;
        int kk = up ? n - 1 : 0;
        std::vector<std::pair<int,int>> blocks;
        while (up ? kk >= 0 : kk < n) {
            int pv = p.idx[kk], w = pv > 0 ? 1 : 2;
            if (pv == 0 || abs(pv) > n) violation("wrong-result", "bkfactor", "%s: pivot %d is %d", op.desc.c_str(), kk, pv);
            if (w == 2) { int o2 = up ? kk - 1 : kk + 1; if (o2 < 0 || o2 >= n || p.idx[o2] != pv) violation("wrong-result", "bkfactor", "%s: 2x2 block at %d without matching pivots", op.desc.c_str(), kk); }
            // swap in M columns: M = M * P
            int c0 = up ? (w == 1 ? kk : kk - 1) : kk, sw = up ? (w == 1 ? kk : kk - 1) : (w == 1 ? kk : kk + 1), q = abs(pv) - 1;
            if (q != sw) for (int i = 0; i < n; i++) std::swap(M(i, sw), M(i, q));
            // M = M * Lk, Lk = identity with columns c0..c0+w-1 of the factor
            Mat L = ident(n);
            for (int c = c0; c < c0 + w; c++) for (int i = 0; i < n; i++) if (up ? i < c0 : i >= c0 + w) L(i, c) = f(i, c);
            M = mul(M, L);
            for (int c = c0; c < c0 + w; c++) D(c, c) = f(c, c);
            if (w == 2) D(c0, c0 + 1) = D(c0 + 1, c0) = up ? f(c0, c0 + 1) : f(c0 + 1, c0);
            kk += up ? -w : w;
        }
        Mat back = mul(mul(M, D), tr(M));
        check_norm("bkfactor", op.desc.c_str(), fro(sub(back, a)), tol(n, 200) * (fro(a) + fro(D)));
    };
}

// ------------------------------------------------------------------ QR family
struct QF { int kind; int m, n, k; };
int nref_of(int kind, int m, int n) { return kind == QR || kind == QL ? n : m; }
void gen_shape(int kind, int &m, int &n, int maxd) {
    m = gen_dim("m", maxd); n = PF("square", .25) ? m : gen_dim("n", maxd);
    bool tall = kind == QR || kind == QL;
    if (tall ? m < n : n < m) std::swap(m, n);
}
const char *qnames[] = {"qr", "ql", "lq", "rq"};
// factorisations with a non-negative diagonal
bool gen_ononneg(DOp &op) {
    if (!PF("ononneg", .15)) return false;
    op.setup_conf = [](armas_conf_t *cf) { cf->optflags |= ARMAS_ONONNEG; };
    op.desc += " NONNEG";
    return true;
}
template <int KIND> void g_qfactor(DOp &op, const Layout &l, int maxd) {
    int m, n; gen_shape(KIND, m, n, maxd);
    Operand &A = op.mk("A", m, n, l, true);
    fill_general(A, P("matkind", 0, 6));
    int k = mini(m, n);
    Layout lt = l; Operand &tau = op.mk("tau", k, 1, lt, true);
    setdesc(op, m, n, -1, 0);
    bool nn = gen_ononneg(op);
    op.call = [&A, &tau](armas_conf_t *cf) {
        return KIND == QR ? armas_qrfactor(&A.m, &tau.m, cf) : KIND == QL ? armas_qlfactor(&A.m, &tau.m, cf) : KIND == LQ ? armas_lqfactor(&A.m, &tau.m, cf) : armas_rqfactor(&A.m, &tau.m, cf);
    };
    op.callw = [&A, &tau](armas_wbuf_t *w, armas_conf_t *cf) {
        return KIND == QR ? armas_qrfactor_w(&A.m, &tau.m, w, cf) : KIND == QL ? armas_qlfactor_w(&A.m, &tau.m, w, cf) : KIND == LQ ? armas_lqfactor_w(&A.m, &tau.m, w, cf) : armas_rqfactor_w(&A.m, &tau.m, w, cf);
    };
    op.verify = [&op, &A, &tau, m, n, k, nn](int) {
        Mat a = A.saved(), f = A.mat(), Q = build_q(KIND, f, vec_of(tau), 0, k), T(m, n);
        for (int i = 0; nn && i < k; i++) if (f(KIND == QL ? m - k + i : i, KIND == RQ ? n - k + i : i) < 0)
            violation("wrong-result", qnames[KIND], "%s: negative diagonal element %d", op.desc.c_str(), i);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
            bool in = KIND == QR ? i <= j : KIND == QL ? i - (m - n) >= j : KIND == LQ ? i >= j : j - (n - m) >= i;
            T(i, j) = in ? f(i, j) : 0;
        }
        Mat back = KIND == QR || KIND == QL ? mul(Q, T) : mul(T, Q);
        check_norm((std::string(qnames[KIND]) + "factor").c_str(), op.desc.c_str(), fro(sub(back, a)), tol(maxi(m, n)) * fro(a) + 1e-290L);
        check_orth_cols((std::string(qnames[KIND]) + "factor").c_str(), op.desc.c_str(), Q);
    };
}
template <int KIND> void g_qbuild(DOp &op, const Layout &l, int maxd) {
    int m, n; gen_shape(KIND, m, n, maxd);
    Operand &A = op.mk("A", m, n, l, true);
    int k = mini(m, n);
    Operand &tau = op.mk("tau", k, 1, l, false);
    gen_reflectors(KIND, A, tau, k);
    int K = PF("allk", .6) ? k : P("K", 1, k);
    setdesc(op, m, n, K, 0);
    op.call = [&A, &tau, K](armas_conf_t *cf) {
        return KIND == QR ? armas_qrbuild(&A.m, &tau.m, K, cf) : KIND == QL ? armas_qlbuild(&A.m, &tau.m, K, cf) : KIND == LQ ? armas_lqbuild(&A.m, &tau.m, K, cf) : armas_rqbuild(&A.m, &tau.m, K, cf);
    };
    op.callw = [&A, &tau, K](armas_wbuf_t *w, armas_conf_t *cf) {
        return KIND == QR ? armas_qrbuild_w(&A.m, &tau.m, K, w, cf) : KIND == QL ? armas_qlbuild_w(&A.m, &tau.m, K, w, cf) : KIND == LQ ? armas_lqbuild_w(&A.m, &tau.m, K, w, cf) : armas_rqbuild_w(&A.m, &tau.m, K, w, cf);
    };
    op.verify = [&op, &A, &tau, m, n, k, K](int) {
        // the first K reflectors for QR/LQ, the last K for QL/RQ
        int first = KIND == QR || KIND == LQ ? 0 : k - K;
        Mat Q = build_q(KIND, A.saved(), vec_of(tau), first, K);
        Mat want = KIND == QR ? sub(Q, 0, 0, m, n) : KIND == QL ? sub(Q, 0, m - n, m, n) : KIND == LQ ? sub(Q, 0, 0, m, n) : sub(Q, n - m, 0, m, n);
        check_norm((std::string(qnames[KIND]) + "build").c_str(), op.desc.c_str(), maxabs(sub(A.mat(), want)), tol(maxi(m, n)));
    };
}
template <int KIND> void g_qmult(DOp &op, const Layout &l, int maxd) {
    int m, n; gen_shape(KIND, m, n, maxd);
    int o = maxi(m, n), k = mini(m, n), p = gen_dim("p", maxd), flags = 0;
    if (PF("right", .5)) flags |= ARMAS_RIGHT; else flags |= ARMAS_LEFT;
    if (PF("trans", .5)) flags |= ARMAS_TRANS;
    Operand &A = op.mk("A", m, n, l, false), &tau = op.mk("tau", k, 1, l, false);
    gen_reflectors(KIND, A, tau, k);
    Operand &C = flags & ARMAS_RIGHT ? op.mk("C", p, o, l, true) : op.mk("C", o, p, l, true);
    setdesc(op, m, n, p, flags);
    op.call = [&A, &tau, &C, flags](armas_conf_t *cf) {
        return KIND == QR ? armas_qrmult(&C.m, &A.m, &tau.m, flags, cf) : KIND == QL ? armas_qlmult(&C.m, &A.m, &tau.m, flags, cf) : KIND == LQ ? armas_lqmult(&C.m, &A.m, &tau.m, flags, cf) : armas_rqmult(&C.m, &A.m, &tau.m, flags, cf);
    };
    op.callw = [&A, &tau, &C, flags](armas_wbuf_t *w, armas_conf_t *cf) {
        return KIND == QR ? armas_qrmult_w(&C.m, &A.m, &tau.m, flags, w, cf) : KIND == QL ? armas_qlmult_w(&C.m, &A.m, &tau.m, flags, w, cf) : KIND == LQ ? armas_lqmult_w(&C.m, &A.m, &tau.m, flags, w, cf) : armas_rqmult_w(&C.m, &A.m, &tau.m, flags, w, cf);
    };
    op.verify = [&op, &A, &tau, &C, flags, k, o](int) {
        Mat Q = build_q(KIND, A.saved(), vec_of(tau), 0, k), c0 = C.saved();
        if (flags & ARMAS_TRANS) Q = tr(Q);
        Mat want = flags & ARMAS_RIGHT ? mul(c0, Q) : mul(Q, c0);
        check_norm((std::string(qnames[KIND]) + "mult").c_str(), op.desc.c_str(), fro(sub(C.mat(), want)), tol(o) * fro(c0));
    };
}
// least squares / minimum norm through given factors
template <int KIND> void g_qsolve(DOp &op, const Layout &l, int maxd) {
    int m, n; gen_shape(KIND, m, n, maxd);
    int k = mini(m, n), o = maxi(m, n), p = gen_dim("p", maxd), flags = PF("trans", .5) ? ARMAS_TRANS : 0;
    Operand &A = op.mk("A", m, n, l, false), &tau = op.mk("tau", k, 1, l, false);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        bool in = KIND == QR ? i <= j : i >= j;
        if (in) A.at(i, j) = i == j ? (1 + wrng.unit()) * (wrng.below(2) ? 1 : -1) : rnd() * 2 / k;
    }
    gen_reflectors(KIND, A, tau, k);
    Operand &B = op.mk("B", o, p, l, true);
    setdesc(op, m, n, p, flags);
    op.call = [&A, &tau, &B, flags](armas_conf_t *cf) { return KIND == QR ? armas_qrsolve(&B.m, &A.m, &tau.m, flags, cf) : armas_lqsolve(&B.m, &A.m, &tau.m, flags, cf); };
    op.callw = [&A, &tau, &B, flags](armas_wbuf_t *w, armas_conf_t *cf) { return KIND == QR ? armas_qrsolve_w(&B.m, &A.m, &tau.m, flags, w, cf) : armas_lqsolve_w(&B.m, &A.m, &tau.m, flags, w, cf); };
    op.verify = [&op, &A, &tau, &B, flags, k, o, p](int) {
        Mat f = A.saved(), Q = build_q(KIND, f, vec_of(tau), 0, k), b0 = B.saved(), x = B.mat();
        Mat T = KIND == QR ? triu(sub(f, 0, 0, k, k)) : tril(sub(f, 0, 0, k, k));
        std::string site = std::string(qnames[KIND]) + "solve";
        bool ls = KIND == QR ? !(flags & ARMAS_TRANS) : (flags & ARMAS_TRANS);
        // orthonormal o x k basis of the range; A (tall form, o x k) = Qk S with S = R or L^T
        Mat Qk = KIND == QR ? sub(Q, 0, 0, o, k) : tr(sub(Q, 0, 0, k, o));
        Mat S = KIND == QR ? T : tr(T);
        if (ls) {
            // S X = Qk^T B in the first k rows
            Mat X = sub(x, 0, 0, k, p), c = mul(tr(Qk), b0);
            check_norm(site.c_str(), (op.desc + " least squares").c_str(), fro(sub(mul(S, X), c)), tol(o) * (fro(b0) + fro(S) * fro(X)));
        } else {
            // S^T y = B(0:k), X = Qk y
            Mat b = sub(b0, 0, 0, k, p);
            Mat y = mul(tr(Qk), x);
            check_norm(site.c_str(), (op.desc + " minimum norm: solution leaves the row space").c_str(), fro(sub(x, mul(Qk, y))), tol(o) * (fro(x) + 1e-290L));
            check_norm(site.c_str(), (op.desc + " minimum norm").c_str(), fro(sub(mul(tr(S), y), b)), tol(o) * (fro(b) + fro(S) * fro(x)));
        }
    };
}
void g_qrtfactor(DOp &op, const Layout &l, int maxd) {
    int m, n; gen_shape(QR, m, n, maxd);
    int nb = P("nb", 1, mini(n, 24)), p = gen_dim("p", maxd), flags = 0;
    if (PF("right", .5)) flags |= ARMAS_RIGHT; else flags |= ARMAS_LEFT;
    if (PF("trans", .5)) flags |= ARMAS_TRANS;
    Operand &A = op.mk("A", m, n, l, true), &T = op.mk("T", nb, n, l, true);
    fill_general(A, P("matkind", 0, 6));
    Operand &C = flags & ARMAS_RIGHT ? op.mk("C", p, m, l, true) : op.mk("C", m, p, l, true);
    setdesc(op, m, n, nb, flags);
    bool nn = gen_ononneg(op);
    op.call = [&A, &T, &C, flags](armas_conf_t *cf) { return armas_qrtfactor(&A.m, &T.m, cf); };
    op.callw = [&A, &T](armas_wbuf_t *w, armas_conf_t *cf) { return armas_qrtfactor_w(&A.m, &T.m, w, cf); };
    op.verify = [&op, &A, &T, m, n, nb, nn](int) {
        // block reflectors: for columns c..c+w-1 Q_b = I - Y T Y^T
        Mat f = A.mat(), t = T.mat(), Q = ident(m), a = A.saved();
        for (int c = ((n - 1) / nb) * nb; c >= 0; c -= nb) {
            int w = mini(nb, n - c);
            Mat Y(m, w), tt = triu(sub(t, 0, c, w, w));
            for (int j = 0; j < w; j++) for (int i = c + j; i < m; i++) Y(i, j) = i == c + j ? 1 : f(i, c + j);
            Q = sub(Q, mul(Y, mul(tt, mul(tr(Y), Q))));
        }
        for (int i = 0; nn && i < n; i++) if (f(i, i) < 0) violation("wrong-result", "qrtfactor", "%s: negative diagonal element %d", op.desc.c_str(), i);
        check_norm("qrtfactor", op.desc.c_str(), fro(sub(mul(Q, triu(f)), a)), tol(m) * fro(a) + 1e-290L);
        check_orth_cols("qrtfactor", op.desc.c_str(), Q);
    };
}
// ------------------------------------------------------------------ Hessenberg
Mat hess_q(const Mat &a, const Mat &tau) {
    int n = a.r; Mat q = ident(n);
    for (int k = n - 2; k >= 0; k--) {
        std::vector<LD> v(n, 0.0L); v[k + 1] = 1;
        for (int i = k + 2; i < n; i++) v[i] = a(i, k);
        house_left(q, v, tau(k, 0));
    }
    return q;
}
void g_hessreduce(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd);
    Operand &A = op.mk("A", n, n, l, true), &tau = op.mk("tau", n - 1, 1, l, true);
    fill_general(A, P("matkind", 0, 6));
    setdesc(op, n, n, -1, 0);
    op.call = [&A, &tau](armas_conf_t *cf) { return armas_hessreduce(&A.m, &tau.m, cf); };
    op.callw = [&A, &tau](armas_wbuf_t *w, armas_conf_t *cf) { return armas_hessreduce_w(&A.m, &tau.m, w, cf); };
    op.verify = [&op, &A, &tau, n](int) {
        Mat a = A.saved(), f = A.mat(), Q = hess_q(f, vec_of(tau)), H = f;
        for (int j = 0; j < n; j++) for (int i = j + 2; i < n; i++) H(i, j) = 0;
        check_norm("hessreduce", op.desc.c_str(), fro(sub(mul(mul(Q, H), tr(Q)), a)), tol(n) * fro(a) + 1e-290L);
        check_orth_cols("hessreduce", op.desc.c_str(), Q);
    };
}
void g_hessmult(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), p = gen_dim("p", maxd), flags = 0;
    if (PF("right", .5)) flags |= ARMAS_RIGHT; else flags |= ARMAS_LEFT;
    if (PF("trans", .5)) flags |= ARMAS_TRANS;
    Operand &A = op.mk("A", n, n, l, false), &tau = op.mk("tau", n - 1, 1, l, false);
    for (int k = 0; k < n - 1; k++) { LD s = 1; for (int i = k + 2; i < n; i++) s += (LD)A.at(i, k) * A.at(i, k); vat(tau, k) = (double)(2 / s); }
    Operand &C = flags & ARMAS_RIGHT ? op.mk("C", p, n, l, true) : op.mk("C", n, p, l, true);
    setdesc(op, n, n, p, flags);
    op.call = [&A, &tau, &C, flags](armas_conf_t *cf) { return armas_hessmult(&C.m, &A.m, &tau.m, flags, cf); };
    op.callw = [&A, &tau, &C, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_hessmult_w(&C.m, &A.m, &tau.m, flags, w, cf); };
    op.verify = [&op, &A, &tau, &C, flags, n](int) {
        Mat Q = hess_q(A.saved(), vec_of(tau)), c0 = C.saved();
        if (flags & ARMAS_TRANS) Q = tr(Q);
        check_norm("hessmult", op.desc.c_str(), fro(sub(C.mat(), flags & ARMAS_RIGHT ? mul(c0, Q) : mul(Q, c0))), tol(n) * fro(c0));
    };
}
void g_housemult(DOp &op, const Layout &l, int maxd) {
    int m, n; gen_shape(QR, m, n, maxd);
    int p = gen_dim("p", maxd), flags = ARMAS_UNIT;
    if (PF("right", .5)) flags |= ARMAS_RIGHT; else flags |= ARMAS_LEFT;
    if (PF("trans", .5)) flags |= ARMAS_TRANS;
    Operand &A = op.mk("Q", m, n, l, false), &tau = op.mk("tau", n, 1, l, false);
    gen_reflectors(QR, A, tau, n);
    Operand &C = flags & ARMAS_RIGHT ? op.mk("X", p, m, l, true) : op.mk("X", m, p, l, true);
    setdesc(op, m, n, p, flags);
    op.call = [&A, &tau, &C, flags](armas_conf_t *cf) { return armas_housemult(&C.m, &tau.m, &A.m, flags, cf); };
    op.callw = [&A, &tau, &C, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_housemult_w(&C.m, &tau.m, &A.m, flags, w, cf); };
    op.verify = [&op, &A, &tau, &C, flags, m, n](int) {
        Mat Q = build_q(QR, A.saved(), vec_of(tau), 0, n), c0 = C.saved();
        if (flags & ARMAS_TRANS) Q = tr(Q);
        check_norm("housemult", op.desc.c_str(), fro(sub(C.mat(), flags & ARMAS_RIGHT ? mul(c0, Q) : mul(Q, c0))), tol(m) * fro(c0));
    };
}
// ------------------------------------------------------------------ bidiagonal, tridiagonal
struct BD { int m, n; bool tall; };
// reflectors of Q: column k, unit at k (tall) or k+1 (wide); of P: row k, unit at k+1 (tall) or k (wide)
std::vector<LD> bd_ref(const Mat &a, int k, bool isq) {
    int m = a.r, n = a.c; bool tall = m >= n;
    std::vector<LD> v(isq ? m : n, 0.0L);
    int u = isq ? (tall ? k : k + 1) : (tall ? k + 1 : k);
    v[u] = 1;
    for (int i = u + 1; i < (isq ? m : n); i++) v[i] = isq ? a(i, k) : a(k, i);
    return v;
}
int bd_nref(int m, int n, bool isq) { return m >= n ? (isq ? n : n - 1) : (isq ? m - 1 : m); }
Mat bd_q(const Mat &a, const Mat &tau, bool isq, int count) {
    Mat q = ident(isq ? a.r : a.c);
    for (int k = count - 1; k >= 0; k--) house_left(q, bd_ref(a, k, isq), tau(k, 0));
    return q;
}
void g_bdreduce(DOp &op, const Layout &l, int maxd) {
    int m = gen_dim("m", maxd), n = PF("square", .25) ? m : gen_dim("n", maxd);
    Operand &A = op.mk("A", m, n, l, true);
    fill_general(A, P("matkind", 0, 6));
    int k = mini(m, n);
    Operand &tq = op.mk("tauq", k, 1, l, true), &tp = op.mk("taup", k, 1, l, true);
    setdesc(op, m, n, -1, 0);
    op.call = [&A, &tq, &tp](armas_conf_t *cf) { return armas_bdreduce(&A.m, &tq.m, &tp.m, cf); };
    op.callw = [&A, &tq, &tp](armas_wbuf_t *w, armas_conf_t *cf) { return armas_bdreduce_w(&A.m, &tq.m, &tp.m, w, cf); };
    op.verify = [&op, &A, &tq, &tp, m, n](int) {
        Mat a = A.saved(), f = A.mat(), Q = bd_q(f, vec_of(tq), true, bd_nref(m, n, true)), Pm = bd_q(f, vec_of(tp), false, bd_nref(m, n, false)), B(m, n);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (i == j || (m >= n ? j == i + 1 : i == j + 1)) B(i, j) = f(i, j);
        check_norm("bdreduce", op.desc.c_str(), fro(sub(mul(mul(Q, B), tr(Pm)), a)), tol(maxi(m, n)) * fro(a) + 1e-290L);
        check_orth_cols("bdreduce", op.desc.c_str(), Q); check_orth_cols("bdreduce", op.desc.c_str(), Pm);
    };
}
void gen_bd_refs(Operand &A, Operand &tau, bool isq) {
    Mat a = A.mat();
    int nr = bd_nref(a.r, a.c, isq);
    for (int k = 0; k < vlen(tau); k++) vat(tau, k) = 0;
    for (int k = 0; k < nr; k++) { auto v = bd_ref(a, k, isq); LD s = 0; for (auto x : v) s += x * x; vat(tau, k) = wrng.below(8) ? (double)(2 / s) : 0.0; }
}
void g_bdmult(DOp &op, const Layout &l, int maxd) {
    int m = gen_dim("m", maxd), n = PF("square", .25) ? m : gen_dim("n", maxd), p = gen_dim("p", maxd);
    bool isq = PF("isq", .5); int flags = isq ? ARMAS_MULTQ : ARMAS_MULTP;
    if (PF("right", .5)) flags |= ARMAS_RIGHT; else flags |= ARMAS_LEFT;
    if (PF("trans", .5)) flags |= ARMAS_TRANS;
    Operand &A = op.mk("A", m, n, l, false), &tau = op.mk("tau", mini(m, n), 1, l, false);
    gen_bd_refs(A, tau, isq);
    int o = isq ? m : n;
    Operand &C = flags & ARMAS_RIGHT ? op.mk("C", p, o, l, true) : op.mk("C", o, p, l, true);
    setdesc(op, m, n, p, flags);
    op.call = [&A, &tau, &C, flags](armas_conf_t *cf) { return armas_bdmult(&C.m, &A.m, &tau.m, flags, cf); };
    op.callw = [&A, &tau, &C, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_bdmult_w(&C.m, &A.m, &tau.m, flags, w, cf); };
    op.verify = [&op, &A, &tau, &C, flags, m, n, isq, o](int) {
        Mat Q = bd_q(A.saved(), vec_of(tau), isq, bd_nref(m, n, isq)), c0 = C.saved();
        if (flags & ARMAS_TRANS) Q = tr(Q);
        check_norm("bdmult", op.desc.c_str(), fro(sub(C.mat(), flags & ARMAS_RIGHT ? mul(c0, Q) : mul(Q, c0))), tol(o) * fro(c0));
    };
}
void g_bdbuild(DOp &op, const Layout &l, int maxd) {
    // generate Q (or P^T) for a square-ended reduction: Q from an M-by-N reduction with M >= N, P^T with N x N or M < N
    int m = gen_dim("m", maxd), n = PF("square", .4) ? m : gen_dim("n", maxd);
    bool isq = PF("isq", .5); int flags = isq ? ARMAS_WANTQ : ARMAS_WANTP;
    if (isq ? m < n : n < m) std::swap(m, n);
    Operand &A = op.mk("A", m, n, l, true), &tau = op.mk("tau", mini(m, n), 1, l, false);
    gen_bd_refs(A, tau, isq);
    int K = mini(m, n);
    setdesc(op, m, n, K, flags);
    op.call = [&A, &tau, flags, K](armas_conf_t *cf) { return armas_bdbuild(&A.m, &tau.m, K, flags, cf); };
    op.callw = [&A, &tau, flags, K](armas_wbuf_t *w, armas_conf_t *cf) { return armas_bdbuild_w(&A.m, &tau.m, K, flags, w, cf); };
    op.verify = [&op, &A, &tau, m, n, isq](int) {
        Mat Q = bd_q(A.saved(), vec_of(tau), isq, bd_nref(m, n, isq));
        Mat want = isq ? sub(Q, 0, 0, m, n) : sub(tr(Q), 0, 0, m, n);
        check_norm("bdbuild", op.desc.c_str(), maxabs(sub(A.mat(), want)), tol(maxi(m, n)));
    };
}
std::vector<LD> td_ref(const Mat &a, int k, bool up) {
    int n = a.r; std::vector<LD> v(n, 0.0L);
    if (up) { // column k+1 holds reflector k with unit at row k
        v[k] = 1; for (int i = 0; i < k; i++) v[i] = a(i, k + 1);
    } else { v[k + 1] = 1; for (int i = k + 2; i < n; i++) v[i] = a(i, k); }
    return v;
}
// LOWER: Q = H0 H1 ..., UPPER: Q = H(n-2) ... H0
Mat td_q(const Mat &a, const Mat &tau, bool up) {
    int n = a.r; Mat q = ident(n);
    for (int t = 0; t < n - 1; t++) { int k = up ? t : n - 2 - t; house_left(q, td_ref(a, k, up), tau(k, 0)); }
    return q;
}
void g_trdreduce(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = uplo();
    Operand &A = op.mk("A", n, n, l, true), &tau = op.mk("tau", n, 1, l, true);
    fill_general(A, P("matkind", 0, 6));
    poison_tri(A, other(flags));
    op.keep.push_back({&A, other(flags)});
    setdesc(op, n, n, -1, flags);
    op.call = [&A, &tau, flags](armas_conf_t *cf) { return armas_trdreduce(&A.m, &tau.m, flags, cf); };
    op.callw = [&A, &tau, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_trdreduce_w(&A.m, &tau.m, flags, w, cf); };
    op.verify = [&op, &A, &tau, flags, n](int) {
        bool up = flags & ARMAS_UPPER;
        Mat a = symm_from(A.saved(), up), f = A.mat(), Q = td_q(f, vec_of(tau), up), T(n, n);
        for (int i = 0; i < n; i++) { T(i, i) = f(i, i); if (i + 1 < n) T(i, i + 1) = T(i + 1, i) = up ? f(i, i + 1) : f(i + 1, i); }
        check_norm("trdreduce", op.desc.c_str(), fro(sub(mul(mul(Q, T), tr(Q)), a)), tol(n) * fro(a) + 1e-290L);
        check_orth_cols("trdreduce", op.desc.c_str(), Q);
    };
}
void gen_td_refs(Operand &A, Operand &tau, bool up) {
    Mat a = A.mat(); int n = a.r;
    for (int k = 0; k < vlen(tau); k++) vat(tau, k) = 0;
    for (int k = 0; k < n - 1; k++) { auto v = td_ref(a, k, up); LD s = 0; for (auto x : v) s += x * x; vat(tau, k) = wrng.below(8) ? (double)(2 / s) : 0.0; }
}
void g_trdmult(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), p = gen_dim("p", maxd), flags = uplo();
    if (PF("right", .5)) flags |= ARMAS_RIGHT; else flags |= ARMAS_LEFT;
    if (PF("trans", .5)) flags |= ARMAS_TRANS;
    Operand &A = op.mk("A", n, n, l, false), &tau = op.mk("tau", n, 1, l, false);
    gen_td_refs(A, tau, flags & ARMAS_UPPER);
    Operand &C = flags & ARMAS_RIGHT ? op.mk("C", p, n, l, true) : op.mk("C", n, p, l, true);
    setdesc(op, n, n, p, flags);
    op.call = [&A, &tau, &C, flags](armas_conf_t *cf) { return armas_trdmult(&C.m, &A.m, &tau.m, flags, cf); };
    op.callw = [&A, &tau, &C, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_trdmult_w(&C.m, &A.m, &tau.m, flags, w, cf); };
    op.verify = [&op, &A, &tau, &C, flags, n](int) {
        Mat Q = td_q(A.saved(), vec_of(tau), flags & ARMAS_UPPER), c0 = C.saved();
        if (flags & ARMAS_TRANS) Q = tr(Q);
        check_norm("trdmult", op.desc.c_str(), fro(sub(C.mat(), flags & ARMAS_RIGHT ? mul(c0, Q) : mul(Q, c0))), tol(n) * fro(c0));
    };
}
void g_trdbuild(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = uplo();
    Operand &A = op.mk("A", n, n, l, true), &tau = op.mk("tau", n, 1, l, false);
    gen_td_refs(A, tau, flags & ARMAS_UPPER);
    setdesc(op, n, n, -1, flags);
    int K = PF("kn", .5) ? n : n - 1;
    op.call = [&A, &tau, flags, K](armas_conf_t *cf) { return armas_trdbuild(&A.m, &tau.m, K, flags, cf); };
    op.callw = [&A, &tau, flags, K](armas_wbuf_t *w, armas_conf_t *cf) { return armas_trdbuild_w(&A.m, &tau.m, K, flags, w, cf); };
    op.verify = [&op, &A, &tau, flags, n](int) {
        check_norm("trdbuild", op.desc.c_str(), maxabs(sub(A.mat(), td_q(A.saved(), vec_of(tau), flags & ARMAS_UPPER))), tol(n));
    };
}
// ------------------------------------------------------------------ eigenvalues and singular values
Mat tridiag(const Mat &d, const Mat &e) { int n = d.r; Mat t(n, n); for (int i = 0; i < n; i++) { t(i, i) = d(i, 0); if (i + 1 < n) t(i, i + 1) = t(i + 1, i) = e(i, 0); } return t; }
// number of eigenvalues of the tridiagonal matrix that are smaller than x (Sturm count in long double)
int sturm(const Mat &d, const Mat &e, LD x) {
    int n = d.r, c = 0; LD q = 1;
    for (int i = 0; i < n; i++) {
        LD e2 = i ? e(i - 1, 0) * e(i - 1, 0) : 0;
        q = d(i, 0) - x - (i ? e2 / q : 0);
        if (q == 0) q = -1e-4000L;
        if (q < 0) c++;
    }
    return c;
}
void check_sturm(const char *site, const char *what, const Mat &d, const Mat &e, int index, LD val, LD t) {
    // eigenvalue number index (ascending, from 0) lies within [val-t, val+t]
    if (!(val == val)) violation("wrong-result", site, "%s: eigenvalue %d is NaN", what, index);
    int lo = sturm(d, e, val - t), hi = sturm(d, e, val + t);
    if (!(lo <= index && hi > index))
        violation("wrong-result", site, "%s: eigenvalue %d computed as %.17Lg, but %d eigenvalues lie below it and %d below it plus %.3Lg", what, index, val, lo, hi, 2 * t);
    checked();
}
void fill_trd(Operand &D, Operand &E, int kind) {
    int n = vlen(D);
    for (int i = 0; i < n; i++) {
        double s = kind == 2 ? ldexp(1.0, -(i % 25)) : 1;
        vat(D, i) = kind == 3 ? 1.0 : kind == 4 ? (double)i : rnd() * s;
        if (i < n - 1) vat(E, i) = kind == 1 && wrng.below(3) == 0 ? 0.0 : kind == 5 ? 1e-9 * rnd() : rnd() * s;
    }
}
void g_trdeigen(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = PF("wantv", .6) ? ARMAS_WANTV : 0;
    Operand &D = op.mk("D", n, 1, l, true), &E = op.mk("E", n - 1, 1, l, true), &V = op.mk("V", n, n, l, true);
    fill_trd(D, E, P("matkind", 0, 5));
    V.set(ident(n));
    op.iterative = true;
    setdesc(op, n, n, -1, flags);
    op.call = [&D, &E, &V, flags](armas_conf_t *cf) { return armas_trdeigen(&D.m, &E.m, flags ? &V.m : 0, flags, cf); };
    op.callw = [&D, &E, &V, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_trdeigen_w(&D.m, &E.m, flags ? &V.m : 0, flags, w, cf); };
    op.verify = [&op, &D, &E, &V, flags, n](int) {
        Mat d = D.saved(), e = E.saved(), T = tridiag(d, e), w = D.mat();
        LD nt = fro(T) + 1e-290L, t = tol(n, 60) * nt;
        for (int i = 0; i < n; i++) { if (i && w(i, 0) < w(i - 1, 0)) violation("wrong-result", "trdeigen", "%s: eigenvalues not in increasing order at %d", op.desc.c_str(), i); check_sturm("trdeigen", op.desc.c_str(), d, e, i, w(i, 0), t); }
        if (flags) {
            Mat v = V.mat(), W(n, n); for (int i = 0; i < n; i++) W(i, i) = w(i, 0);
            check_orth_cols("trdeigen", op.desc.c_str(), v);
            check_norm("trdeigen", (op.desc + " TV-VW").c_str(), fro(sub(mul(T, v), mul(v, W))), t);
        } else if (memcmp(V.base, V.snap.data(), V.nel * 8)) violation("outside", "trdeigen", "%s: V changed although not wanted", op.desc.c_str());
    };
}
void g_trdbisect(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd);
    Operand &D = op.mk("D", n, 1, l, false), &E = op.mk("E", n - 1, 1, l, false), &Y = op.mk("Y", n, 1, l, true);
    fill_trd(D, E, P("matkind", 0, 5));
    int sel = P("sel", 0, 1), lo = 0, hi = n;
    if (sel == 1) { lo = P("lo", 0, n - 1); hi = lo + P("cnt", 1, n); if (hi > n) hi = n; if (lo == 0 && hi == 0) hi = 1; }
    auto par = std::make_shared<armas_eigen_parameter_t>();
    memset(par.get(), 0, sizeof *par); par->ileft = sel ? lo : -1; par->iright = sel ? hi : -1;
    setdesc(op, n, n, -1, 0); op.desc += " eigenvalues " + std::to_string(lo) + ".." + std::to_string(hi);
    op.call = [&D, &E, &Y, par](armas_conf_t *cf) { return armas_trdbisect(&Y.m, &D.m, &E.m, par.get(), cf); };
    op.verify = [&op, &D, &E, &Y, lo, hi](int) {
        Mat d = D.saved(), e = E.saved(); LD t = tol(d.r, 60) * (fro(tridiag(d, e)) + 1e-290L);
        for (int i = lo; i < hi; i++) check_sturm("trdbisect", op.desc.c_str(), d, e, i, Y.at(i, 0), t);
    };
}
// Householder tridiagonalisation of the reference matrix in long double, for eigenvalue counts
void ref_tridiag(Mat a, Mat &d, Mat &e) {
    int n = a.r; d = Mat(n, 1); e = Mat(n > 1 ? n - 1 : 1, 1);
    for (int k = 0; k + 2 < n; k++) {
        LD s = 0; for (int i = k + 1; i < n; i++) s += a(i, k) * a(i, k);
        LD x = a(k + 1, k), al = sqrtl(s); if (al == 0) continue; if (x > 0) al = -al;
        std::vector<LD> v(n, 0.0L); for (int i = k + 1; i < n; i++) v[i] = a(i, k);
        v[k + 1] -= al;
        LD vv = 0; for (auto t : v) vv += t * t; if (vv == 0) continue;
        house_left(a, v, 2 / vv); a = tr(a); house_left(a, v, 2 / vv); a = tr(a);
    }
    for (int i = 0; i < n; i++) { d(i, 0) = a(i, i); if (i + 1 < n) e(i, 0) = (a(i + 1, i) + a(i, i + 1)) / 2; }
}
void g_eigen_sym(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = uplo(); if (PF("wantv", .6)) flags |= ARMAS_WANTV;
    Operand &D = op.mk("D", n, 1, l, true), &A = op.mk("A", n, n, l, true);
    fill_general(A, P("matkind", 0, 6));
    if (PF("poison", .5)) poison_tri(A, other(flags & (ARMAS_UPPER | ARMAS_LOWER)));
    op.iterative = true;
    setdesc(op, n, n, -1, flags);
    op.call = [&D, &A, flags](armas_conf_t *cf) { return armas_eigen_sym(&D.m, &A.m, flags, cf); };
    op.callw = [&D, &A, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_eigen_sym_w(&D.m, &A.m, flags, w, cf); };
    op.verify = [&op, &D, &A, flags, n](int) {
        Mat a = symm_from(A.saved(), flags & ARMAS_UPPER), w = D.mat(), d, e;
        ref_tridiag(a, d, e);
        LD t = tol(n, 60) * (fro(a) + 1e-290L);
        for (int i = 0; i < n; i++) { if (i && w(i, 0) < w(i - 1, 0)) violation("wrong-result", "eigen_sym", "%s: eigenvalues not in increasing order at %d", op.desc.c_str(), i); check_sturm("eigen_sym", op.desc.c_str(), d, e, i, w(i, 0), t); }
        if (flags & ARMAS_WANTV) {
            Mat v = A.mat(), W(n, n); for (int i = 0; i < n; i++) W(i, i) = w(i, 0);
            check_orth_cols("eigen_sym", op.desc.c_str(), v);
            check_norm("eigen_sym", (op.desc + " AV-VW").c_str(), fro(sub(mul(a, v), mul(v, W))), t);
        }
    };
}
void g_eigen_selected(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = uplo();
    Operand &D = op.mk("D", n, 1, l, true), &A = op.mk("A", n, n, l, true);
    fill_general(A, P("matkind", 0, 6));
    int sel = P("sel", 0, 1), lo = 0, hi = n;
    if (sel == 1) { lo = P("lo", 0, n - 1); hi = lo + P("cnt", 1, n); if (hi > n) hi = n; }
    auto par = std::make_shared<armas_eigen_parameter_t>();
    memset(par.get(), 0, sizeof *par); par->ileft = sel ? lo : -1; par->iright = sel ? hi : -1;
    setdesc(op, n, n, -1, flags); op.desc += " eigenvalues " + std::to_string(lo) + ".." + std::to_string(hi);
    op.call = [&D, &A, flags, par](armas_conf_t *cf) { return armas_eigen_sym_selected(&D.m, &A.m, par.get(), flags, cf); };
    op.callw = [&D, &A, flags, par](armas_wbuf_t *w, armas_conf_t *cf) { return armas_eigen_sym_selected_w(&D.m, &A.m, par.get(), flags, w, cf); };
    op.verify = [&op, &D, &A, flags, lo, hi](int) {
        Mat a = symm_from(A.saved(), flags & ARMAS_UPPER), w = D.mat(), d, e;
        ref_tridiag(a, d, e);
        LD t = tol(a.r, 60) * (fro(a) + 1e-290L);
        for (int i = lo; i < hi; i++) check_sturm("eigen_sym_selected", op.desc.c_str(), d, e, i, w(i, 0), t);
    };
}
// singular values s (descending) of the matrix B (r x c): eigenvalues of the Golub-Kahan form
void check_singular(const char *site, const char *what, const Mat &b, const Mat &s, LD t) {
    int k = mini(b.r, b.c), N = b.r + b.c;
    Mat big(N, N), d, e;
    for (int j = 0; j < b.c; j++) for (int i = 0; i < b.r; i++) big(i, b.r + j) = big(b.r + j, i) = b(i, j);
    ref_tridiag(big, d, e);
    for (int i = 0; i < k; i++) {
        if (!(s(i, 0) >= 0)) violation("wrong-result", site, "%s: singular value %d is %.17Lg", what, i, s(i, 0));
        if (i && s(i, 0) > s(i - 1, 0)) violation("wrong-result", site, "%s: singular values not in decreasing order at %d", what, i);
        check_sturm(site, what, d, e, N - 1 - i, s(i, 0), t);
    }
}
void g_bdsvd(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", mini(maxd, 60)), flags = uplo();
    if (PF("wantu", .5)) flags |= ARMAS_WANTU;
    if (PF("wantv", .5)) flags |= ARMAS_WANTV;
    Operand &D = op.mk("D", n, 1, l, true), &E = op.mk("E", n - 1, 1, l, true), &U = op.mk("U", n, n, l, true), &V = op.mk("V", n, n, l, true);
    fill_trd(D, E, P("matkind", 0, 5));
    U.set(ident(n)); V.set(ident(n));
    op.iterative = true;
    int golub = PF("golub", .3);
    if (golub) op.setup_conf = [](armas_conf_t *cf) { cf->optflags |= ARMAS_OBSVD_GOLUB; };
    setdesc(op, n, n, -1, flags); if (golub) op.desc += " Golub";
    op.call = [&D, &E, &U, &V, flags](armas_conf_t *cf) { return armas_bdsvd(&D.m, &E.m, flags & ARMAS_WANTU ? &U.m : 0, flags & ARMAS_WANTV ? &V.m : 0, flags, cf); };
    op.callw = [&D, &E, &U, &V, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_bdsvd_w(&D.m, &E.m, flags & ARMAS_WANTU ? &U.m : 0, flags & ARMAS_WANTV ? &V.m : 0, flags, w, cf); };
    op.verify = [&op, &D, &E, &U, &V, flags, n](int) {
        Mat d = D.saved(), e = E.saved(), B(n, n), s = D.mat(), S(n, n);
        for (int i = 0; i < n; i++) { S(i, i) = s(i, 0); B(i, i) = d(i, 0); if (i + 1 < n) { if (flags & ARMAS_LOWER) B(i + 1, i) = e(i, 0); else B(i, i + 1) = e(i, 0); } }
        LD t = tol(n, 60) * (fro(B) + 1e-290L);
        check_singular("bdsvd", op.desc.c_str(), B, s, t);
        Mat u = U.mat(), v = V.mat();
        if (flags & ARMAS_WANTU) check_orth_cols("bdsvd", (op.desc + " U").c_str(), u);
        if (flags & ARMAS_WANTV) check_orth_cols("bdsvd", (op.desc + " V").c_str(), tr(v));
        if ((flags & ARMAS_WANTU) && (flags & ARMAS_WANTV)) check_norm("bdsvd", (op.desc + " B-USV").c_str(), fro(sub(mul(mul(u, S), v), B)), t);
        else if (flags & ARMAS_WANTU) { Mat g = mul(tr(u), mul(mul(B, tr(B)), u)); check_norm("bdsvd", (op.desc + " U'BB'U-S2").c_str(), fro(sub(g, mul(S, S))), t * (fro(B) + 1e-290L) * 4); }
        else if (flags & ARMAS_WANTV) { Mat g = mul(v, mul(mul(tr(B), B), tr(v))); check_norm("bdsvd", (op.desc + " VB'BV'-S2").c_str(), fro(sub(g, mul(S, S))), t * (fro(B) + 1e-290L) * 4); }
    };
}
void g_dqds(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", mini(maxd, 60));
    Operand &D = op.mk("D", n, 1, l, true), &E = op.mk("E", n - 1, 1, l, true);
    fill_trd(D, E, PC("matkind", {0, 2, 3, 4}));
    for (int i = 0; i < n; i++) vat(D, i) = fabs(vat(D, i)) + 0.05;
    for (int i = 0; i < n - 1; i++) vat(E, i) = fabs(vat(E, i)) + 1e-3;
    op.iterative = true;
    setdesc(op, n, n, -1, 0);
    op.call = [&D, &E](armas_conf_t *cf) { return armas_dqds(&D.m, &E.m, cf); };
    op.callw = [&D, &E](armas_wbuf_t *w, armas_conf_t *cf) { return armas_dqds_w(&D.m, &E.m, w, cf); };
    op.verify = [&op, &D, &E, n](int) {
        Mat d = D.saved(), e = E.saved(), B(n, n);
        for (int i = 0; i < n; i++) { B(i, i) = d(i, 0); if (i + 1 < n) B(i, i + 1) = e(i, 0); }
        check_singular("dqds", op.desc.c_str(), B, D.mat(), tol(n, 60) * (fro(B) + 1e-290L));
    };
}
void g_svd(DOp &op, const Layout &l, int maxd) {
    maxd = mini(maxd, 60);
    int m = gen_dim("m", maxd), n = PF("square", .25) ? m : gen_dim("n", maxd), flags = 0;
    if (PF("aspect", .2)) { if (PF("tall", .5)) n = 1 + n / 4; else m = 1 + m / 4; }
    bool tall = m >= n; int k = mini(m, n);
    if (PF("wantu", .6)) flags |= ARMAS_WANTU;
    if (PF("wantv", .6)) flags |= ARMAS_WANTV;
    bool fullu = PF("fullu", .4), fullv = PF("fullv", .4);
    Operand &S = op.mk("S", k, 1, l, true), &A = op.mk("A", m, n, l, true);
    Operand &U = op.mk("U", m, tall && !fullu ? n : m, l, true), &V = op.mk("V", !tall && !fullv ? m : n, n, l, true);
    fill_general(A, P("matkind", 0, 6));
    op.iterative = true;
    setdesc(op, m, n, -1, flags); if (fullu) op.desc += " fullU"; if (fullv) op.desc += " fullV";
    op.call = [&S, &A, &U, &V, flags](armas_conf_t *cf) { return armas_svd(&S.m, flags & ARMAS_WANTU ? &U.m : 0, flags & ARMAS_WANTV ? &V.m : 0, &A.m, flags, cf); };
    op.callw = [&S, &A, &U, &V, flags](armas_wbuf_t *w, armas_conf_t *cf) { return armas_svd_w(&S.m, flags & ARMAS_WANTU ? &U.m : 0, flags & ARMAS_WANTV ? &V.m : 0, &A.m, flags, w, cf); };
    op.verify = [&op, &S, &A, &U, &V, flags, m, n, k](int) {
        Mat a = A.saved(), s = S.mat(), u = U.mat(), v = V.mat(), Sm(k, k);
        for (int i = 0; i < k; i++) Sm(i, i) = s(i, 0);
        LD na = fro(a) + 1e-290L, t = tol(maxi(m, n), 60) * na;
        check_singular("svd", op.desc.c_str(), a, s, t);
        if (flags & ARMAS_WANTU) check_orth_cols("svd", (op.desc + " U").c_str(), u);
        if (flags & ARMAS_WANTV) check_orth_cols("svd", (op.desc + " V").c_str(), tr(v));
        Mat uk = sub(u, 0, 0, m, k), vk = sub(v, 0, 0, k, n);
        if ((flags & ARMAS_WANTU) && (flags & ARMAS_WANTV)) check_norm("svd", (op.desc + " A-USV").c_str(), fro(sub(mul(mul(uk, Sm), vk), a)), t);
        else if (flags & ARMAS_WANTU) { Mat y = mul(tr(uk), a); check_norm("svd", (op.desc + " U'AA'U-S2").c_str(), fro(sub(mul(y, tr(y)), mul(Sm, Sm))), 4 * t * na); }
        else if (flags & ARMAS_WANTV) { Mat y = mul(a, tr(vk)); check_norm("svd", (op.desc + " VA'AV'-S2").c_str(), fro(sub(mul(tr(y), y), mul(Sm, Sm))), 4 * t * na); }
    };
}
// ------------------------------------------------------------------ diagonal scaling, butterfly
template <int SOLVE> void g_diag(DOp &op, const Layout &l, int maxd) {
    int m = gen_dim("m", maxd), n = gen_dim("n", maxd), flags = PF("right", .5) ? ARMAS_RIGHT : ARMAS_LEFT;
    double alpha = gen_scalar("alpha");
    Operand &A = op.mk("A", m, n, l, true), &D = op.mkv("D", flags & ARMAS_RIGHT ? n : m, l, false, 1);
    for (int i = 0; i < vlen(D); i++) vat(D, i) = (0.5 + wrng.unit()) * (wrng.below(2) ? 1 : -1);
    setdesc(op, m, n, -1, flags);
    op.call = [&A, &D, alpha, flags](armas_conf_t *cf) { return SOLVE ? armas_solve_diag(&A.m, alpha, &D.m, flags, cf) : armas_mult_diag(&A.m, alpha, &D.m, flags, cf); };
    op.verify = [&op, &A, &D, alpha, flags, m, n](int) {
        Mat a = A.saved(), d = vmat(D), w(m, n);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { LD x = d(flags & ARMAS_RIGHT ? j : i, 0); w(i, j) = alpha * a(i, j) * (SOLVE ? 1 / x : x); }
        check_close(op.name.c_str(), op.desc.c_str(), A.mat(), w, absm(w), 8);
    };
}
// sizes of elements near the limits of the number range: a common factor, or each element its own
static double extreme(int mag) {
    static int common; if (mag < 0) { common = (int)wrng.below(1861) - 930; return 0; }
    return mag == 0 ? 1 : ldexp(1.0, mag == 1 ? common : (int)wrng.below(1861) - 930);
}
// level 1: reductions, updates and matrix norms; every summation method
void g_level1(DOp &op, const Layout &l, int maxd) {
    static const char *nm[] = {"dot", "nrm2", "asum", "iamax", "iamin", "amax", "axpy", "axpby", "scale", "swap", "copy", "mnorm", "adot"};
    int which = P("which", 0, 12), n = gen_dim("n", 2 * maxd);
    unsigned opt = PC("method", {0, 0, ARMAS_ONAIVE, ARMAS_OKAHAN, ARMAS_ORECURSIVE});
    Scal s = scal();
    op.setup_conf = [opt](armas_conf_t *cf) { cf->optflags |= opt; };
    op.name = nm[which];
    auto r = std::make_shared<double>(0.0);
    if (which == 11) {
        int m = gen_dim("m", maxd), norm = PC("norm", {ARMAS_NORM_ONE, ARMAS_NORM_INF, ARMAS_NORM_FRB, ARMAS_NORM_TWO});
        n = gen_dim("n2", maxd);
        if (norm == ARMAS_NORM_TWO && m > 1) n = 1;
        Operand &A = op.mk("A", m, n, l, false);
        if (int mag = PF("extreme", .25) ? P("mag", 1, 2) : 0) { extreme(-1); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A.at(i, j) *= extreme(mag); }
        op.scal.push_back(r); setdesc(op, m, n, norm, 0);
        op.call = [&A, r, norm](armas_conf_t *cf) { *r = armas_mnorm(&A.m, norm, cf); return 0; };
        op.verify = [&op, &A, r, norm, m, n](int) {
            Mat a = A.saved(); LD v = 0; bool vec = m == 1 || n == 1;
            // a vector is taken as such whatever its orientation
            if (norm == ARMAS_NORM_FRB || norm == ARMAS_NORM_TWO) v = fro(a);
            else if (vec && norm == ARMAS_NORM_ONE) { for (LD x : a.v) v += fabsl(x); }
            else if (vec) { for (LD x : a.v) if (fabsl(x) > v) v = fabsl(x); }
            else for (int k = 0; k < (norm == ARMAS_NORM_ONE ? n : m); k++) { LD t = 0; for (int i = 0; i < (norm == ARMAS_NORM_ONE ? m : n); i++) t += fabsl(norm == ARMAS_NORM_ONE ? a(i, k) : a(k, i)); if (t > v) v = t; }
            check_norm("mnorm", op.desc.c_str(), fabsl(*r - v), 4.0L * (m + n + 4) * EPS * v + 1e-300L);
        };
        return;
    }
    bool out = which >= 6 && which <= 10;
    Operand &x = op.mkv("x", n, l, which == 8 || which == 9, 1), &y = op.mkv("y", n, l, out && which != 8, 1);
    setdesc(op, n, 1, (int)opt, 0);
    if (!out) op.scal.push_back(r);
    if (which >= 1 && which <= 5 && PF("extreme", .25)) { int mag = P("mag", 1, 2); extreme(-1); for (int i = 0; i < n; i++) vat(x, i) *= extreme(mag); }
    auto x0 = std::make_shared<Mat>(vmat(x)), y0 = std::make_shared<Mat>(vmat(y));
    op.call = [&x, &y, s, r, which](armas_conf_t *cf) -> int {
        switch (which) {
        case 0: *r = armas_dot(&x.m, &y.m, cf); return 0;
        case 1: *r = armas_nrm2(&x.m, cf); return 0;
        case 2: *r = armas_asum(&x.m, cf); return 0;
        case 3: *r = armas_iamax(&x.m, cf); return 0;
        case 4: *r = armas_iamin(&x.m, cf); return 0;
        case 5: *r = armas_amax(&x.m, cf); return 0;
        case 6: return armas_axpy(&y.m, s.a, &x.m, cf);
        case 7: return armas_axpby(s.b, &y.m, s.a, &x.m, cf);
        case 8: return armas_scale(&x.m, s.a, cf);
        case 9: return armas_swap(&y.m, &x.m, cf);
        case 10: return armas_copy(&y.m, &x.m, cf);
        default: *r = s.b; return armas_adot(r.get(), s.a, &x.m, &y.m, cf);
        }
    };
    op.verify = [&op, &x, &y, s, r, which, n, x0, y0](int) {
        const Mat &a = *x0, &b = *y0; const char *nm = op.name.c_str(), *d = op.desc.c_str();
        LD v = 0, ab = 0, mx = 0, mn = 1e4000L;
        for (int i = 0; i < n; i++) {
            if (which == 0 || which == 12) { v += a(i, 0) * b(i, 0); ab += fabsl(a(i, 0) * b(i, 0)); }
            else if (which == 1) { v += a(i, 0) * a(i, 0); }
            else { v += fabsl(a(i, 0)); ab = v; }
            mx = fmaxl(mx, fabsl(a(i, 0))); mn = fminl(mn, fabsl(a(i, 0)));
        }
        LD e = 2.0L * (n + 8) * EPS;
        switch (which) {
        case 0: case 2: check_norm(nm, d, fabsl(*r - v), e * ab + 1e-300L); break;
        case 12: check_norm(nm, d, fabsl(*r - (s.b + s.a * v)), e * (fabs(s.b) + fabs(s.a) * ab) + 1e-300L); break;
        case 1: check_norm(nm, d, fabsl(*r - sqrtl(v)), e * sqrtl(v) + 1e-300L); break;
        case 3: case 4:
            if (!(*r >= 0 && *r < n) || fabsl(a((int)*r, 0)) != (which == 3 ? mx : mn)) violation("wrong-result", nm, "%s: index %g is not the element of %s absolute value", d, *r, which == 3 ? "largest" : "smallest");
            break;
        case 5: check_norm(nm, d, fabsl(*r - mx), 0); break;
        case 6: check_close(nm, d, vmat(y), add(b, a, s.a), add(absm(b), absm(a), fabs(s.a)), 4); break;
        case 7: check_close(nm, d, vmat(y), add(scaled(b, s.b), a, s.a), add(scaled(absm(b), fabs(s.b)), absm(a), fabs(s.a)), 4); break;
        case 8: check_close(nm, d, vmat(x), scaled(a, s.a), scaled(absm(a), fabs(s.a)), 2); break;
        case 9: check_close(nm, d, vmat(x), b, absm(b), 0); check_close(nm, d, vmat(y), a, absm(a), 0); break;
        case 10: check_close(nm, d, vmat(y), a, absm(a), 0); break;
        }
    };
}
// the block reflector T of a factored panel: I - Y T Y^T is the product of the elementary reflectors
template <int KIND> void g_reflector(DOp &op, const Layout &l, int maxd) {
    bool col = KIND == QR || KIND == QL;
    int m = gen_dim("m", maxd), k = P("k", 1, mini(m, 24));
    Operand &A = op.mk("A", col ? m : k, col ? k : m, l, false), &tau = op.mkv("tau", k, l, false), &T = op.mk("T", k, k, l, true);
    gen_reflectors(KIND, A, tau, k);
    bool fwd = KIND == QR || KIND == LQ;
    op.keep.push_back({&T, fwd ? ARMAS_LOWER : ARMAS_UPPER});
    setdesc(op, A.rows(), A.cols(), -1, 0);
    op.call = [&A, &tau, &T](armas_conf_t *cf) {
        switch (KIND) {
        case QR: return armas_qrreflector(&T.m, &A.m, &tau.m, cf);
        case QL: return armas_qlreflector(&T.m, &A.m, &tau.m, cf);
        case LQ: return armas_lqreflector(&T.m, &A.m, &tau.m, cf);
        default: return armas_rqreflector(&T.m, &A.m, &tau.m, cf);
        }
    };
    op.verify = [&op, &A, &tau, &T, m, k, fwd](int) {
        Mat a = A.saved(), t = vmat(tau), Y(m, k), Q = ident(m), tt = fwd ? triu(T.mat()) : tril(T.mat());
        for (int j = 0; j < k; j++) { std::vector<LD> v = reflector(KIND, a, j); for (int i = 0; i < m; i++) Y(i, j) = v[i]; }
        for (int j = 0; j < k; j++) { int q = fwd ? k - 1 - j : j; house_left(Q, reflector(KIND, a, q), t(q, 0)); }
        Mat H = sub(ident(m), mul(Y, mul(tt, tr(Y))));
        LD lim = tol(m, 30) * (1 + fro(Y) * fro(Y) * fro(tt));
        check_norm(op.name.c_str(), op.desc.c_str(), fro(sub(H, Q)), lim);
    };
}
// generate a reflector for a vector, then apply it to a matrix
void g_house(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), p = gen_dim("p", maxd), nonneg = PF("nonneg", .4) ? ARMAS_NONNEG : 0, right = PF("right", .5), kind = P("matkind", 0, 6);
    Operand &a1 = op.mk("alpha", 1, 1, l, true), &x = op.mkv("x", n, l, true, 0), &tau = op.mk("tau", 1, 1, l, true), &w = op.mkv("w", p, l, true, 0);
    Operand &C1 = right ? op.mk("C1", p, 1, l, true) : op.mk("C1", 1, p, l, true), &C2 = right ? op.mk("C2", p, n, l, true) : op.mk("C2", n, p, l, true);
    double sc = kind == 1 ? ldexp(1.0, 200) : kind == 2 ? ldexp(1.0, -200) : 1;
    double sx = kind == 4 ? ldexp(1.0, -600) : kind == 5 ? 0 : kind == 6 ? ldexp(1.0, -480) : sc;   // tail negligible, zero, tiny
    x.fill([&](int, int) { return rnd() * sx; }); a1.at(0, 0) = kind == 3 ? 0.0 : rnd() * sc;
    op.name = "house"; setdesc(op, n + 1, p, -1, (right ? ARMAS_RIGHT : ARMAS_LEFT)); if (nonneg) op.desc += " NONNEG";
    op.call = [&, nonneg, right](armas_conf_t *cf) {
        int rc = armas_house(&a1.m, &x.m, &tau.m, ARMAS_UNIT | nonneg, cf);
        if (rc) return rc;
        return armas_houseapply2x1(&C1.m, &C2.m, &tau.m, &x.m, &w.m, right ? ARMAS_RIGHT : ARMAS_LEFT, cf);
    };
    op.verify = [&op, &a1, &x, &tau, &C1, &C2, n, p, nonneg, right](int) {
        std::vector<LD> v(n + 1); v[0] = 1; for (int i = 0; i < n; i++) v[i + 1] = x.at(i, 0);
        LD t = tau.at(0, 0), b = a1.at(0, 0);
        Mat z(n + 1, 1), z0, xs = x.saved(); z(0, 0) = a1.saved()(0, 0); for (int i = 0; i < n; i++) z(i + 1, 0) = xs(i, 0);
        z0 = z; house_left(z, v, t);
        LD nz = fro(z0); z(0, 0) -= b;
        check_norm("house", (op.desc + ": Hx - beta e0").c_str(), fro(z), tol(n, 20) * nz + 1e-290L);
        check_norm("house", (op.desc + ": |beta|").c_str(), fabsl(fabsl(b) - nz), tol(n, 20) * nz + 1e-290L);
        if (nonneg && b < 0) violation("wrong-result", "house", "%s: beta is %Lg", op.desc.c_str(), b);
        LD vv = 0; for (LD e : v) vv += e * e;
        check_norm("house", (op.desc + ": H not orthogonal").c_str(), fabsl(t * (t * vv - 2)), tol(n, 40));
        Mat c(n + 1, p), c1 = C1.saved(), c2 = C2.saved(), g1 = C1.mat(), g2 = C2.mat(), g(n + 1, p);
        for (int j = 0; j < p; j++) { c(0, j) = right ? c1(j, 0) : c1(0, j); g(0, j) = right ? g1(j, 0) : g1(0, j); for (int i = 0; i < n; i++) { c(i + 1, j) = right ? c2(j, i) : c2(i, j); g(i + 1, j) = right ? g2(j, i) : g2(i, j); } }
        LD nc = fro(c); house_left(c, v, t);
        check_norm("house", (op.desc + ": applied").c_str(), fro(sub(c, g)), tol(n, 20) * (1 + fabsl(t) * vv) * nc + 1e-290L);
    };
}
// hyperbolic reflector
// a reflector (scaled: tau and v without its leading one, unscaled: I - 2vv') made by armas_house, applied with armas_houseapply
void g_houseapply(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), p = gen_dim("p", maxd), nonneg = PF("nonneg", .4) ? ARMAS_NONNEG : 0, right = PF("right", .5);
    bool scaled = PF("scaled", .5), vec = PF("vector", .3);
    if (vec) p = 1;
    Operand &v = op.mkv("v", n + 1, l, true, 0), &tau = op.mk("tau", 1, 1, l, true), &w = op.mkv("w", p, l, true, 0);
    Operand &C = right ? op.mk("C", p, n + 1, l, true) : op.mk("C", n + 1, p, l, true);
    v.fill([&](int, int) { return rnd(); });
    op.name = "houseapply"; setdesc(op, n + 1, p, -1, (right ? ARMAS_RIGHT : ARMAS_LEFT)); if (nonneg) op.desc += " NONNEG";
    if (scaled) op.desc += " scaled";
    op.call = [&, nonneg, right, scaled, n, p](armas_conf_t *cf) {
        armas_dense_t a1, x;
        if (op_reshaped) return armas_houseapply(&C.m, scaled ? &tau.m : 0, &v.m, p == 1 ? 0 : &w.m, (right ? ARMAS_RIGHT : ARMAS_LEFT) | (scaled ? ARMAS_UNIT : 0), cf);
        armas_submatrix(&a1, &v.m, 0, 0, 1, 1); armas_submatrix(&x, &v.m, 1, 0, n, 1);
        int rc = armas_house(&a1, &x, &tau.m, (scaled ? ARMAS_UNIT : 0) | nonneg, cf);
        if (rc) return rc;
        return armas_houseapply(&C.m, scaled ? &tau.m : 0, scaled ? &x : &v.m, p == 1 ? 0 : &w.m, (right ? ARMAS_RIGHT : ARMAS_LEFT) | (scaled ? ARMAS_UNIT : 0), cf);
    };
    op.verify = [&op, &v, &tau, &C, n, p, nonneg, right, scaled](int) {
        std::vector<LD> h(n + 1); for (int i = 0; i <= n; i++) h[i] = scaled && i == 0 ? 1 : v.at(i, 0);
        LD t = scaled ? tau.at(0, 0) : 2, b = scaled ? v.at(0, 0) : tau.at(0, 0);
        Mat z = v.saved(); LD nz = fro(z);
        house_left(z, h, t); z(0, 0) -= b;
        check_norm("houseapply", (op.desc + ": Hx - beta e0").c_str(), fro(z), tol(n, 20) * nz + 1e-290L);
        if (nonneg && b < 0) violation("wrong-result", "houseapply", "%s: beta is %Lg", op.desc.c_str(), b);
        LD hh = 0; for (LD e : h) hh += e * e;
        Mat c = right ? tr(C.saved()) : C.saved(), g = right ? tr(C.mat()) : C.mat();
        LD nc = fro(c); house_left(c, h, t);
        check_norm("houseapply", (op.desc + ": applied").c_str(), fro(sub(c, g)), tol(n, 20) * (1 + fabsl(t) * hh) * nc + 1e-290L);
    };
}
void g_hhouse(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), p = gen_dim("p", maxd), fl = PC("hflags", {0, ARMAS_NONNEG, ARMAS_HHNEGATIVE, ARMAS_HHNEGATIVE | ARMAS_NONNEG}), right = PF("right", .5);
    Operand &a1 = op.mk("alpha", 1, 1, l, true), &x = op.mkv("x", n, l, true, 0), &tau = op.mk("tau", 1, 1, l, true), &w = op.mkv("w", p, l, true, 0);
    Operand &C1 = right ? op.mk("C1", p, 1, l, true) : op.mk("C1", 1, p, l, true), &C2 = right ? op.mk("C2", p, n, l, true) : op.mk("C2", n, p, l, true);
    LD s = 0; for (int i = 0; i < n; i++) s += (LD)x.at(i, 0) * x.at(i, 0);
    a1.at(0, 0) = (double)((1.05L + wrng.unit()) * sqrtl(s)) * (PF("neg", .5) ? -1 : 1);
    // size: ordinary, tiny (the reflector is computed from scaled elements), as long as the rest of the vector (no reflector exists), or all of the vector
    int size = PC("size", {0, 0, 0, 1, 2, 3}); double sc = size == 1 ? ldexp(1.0, -990 + (int)wrng.below(20)) : 1;
    bool none = size == 2;
    if (size == 1) { a1.at(0, 0) *= sc; for (int i = 0; i < n; i++) x.at(i, 0) *= sc; }
    if (none) { double keep = x.at(0, 0); if (keep == 0) keep = 0.5; int at = (int)wrng.below(n); for (int i = 0; i < n; i++) x.at(i, 0) = i == at ? keep : 0; a1.at(0, 0) = fabs(keep) * (a1.at(0, 0) < 0 ? -1 : 1); }
    op.name = "hhouse"; setdesc(op, n + 1, p, fl, (right ? ARMAS_RIGHT : ARMAS_LEFT)); if (size == 3) for (int i = 0; i < n; i++) x.at(i, 0) = 0;
    if (size) op.desc += none ? " null vector" : size == 3 ? " zero tail" : " tiny";
    LD floor = size == 1 ? (LD)sc * 1e-10L : 1e-290L;
    op.call = [&, fl, right, none](armas_conf_t *cf) {
        int rc = armas_hhouse(&a1.m, &x.m, &tau.m, fl, cf);
        if (none) {
            if (rc >= 0 && !op_reshaped) violation("wrong-result", "hhouse", "%s: a reflector for a vector with alpha^2 - x'x = 0 returned %d", op.desc.c_str(), rc);
            return 0;
        }
        if (rc) return rc;
        return armas_hhouse_apply(&tau.m, &x.m, &C1.m, &C2.m, &w.m, right ? ARMAS_RIGHT : ARMAS_LEFT, cf);
    };
    op.verify = [&op, &a1, &x, &tau, &C1, &C2, n, p, fl, right, none, floor](int) {
        if (none) return;
        std::vector<LD> v(n + 1); v[0] = 1; for (int i = 0; i < n; i++) v[i + 1] = x.at(i, 0);
        LD t = tau.at(0, 0), b = a1.at(0, 0), nv = 0, kappa; Mat xs = x.saved(); LD a = a1.saved()(0, 0), x2 = 0;
        for (LD e : v) nv += e * e;
        for (int i = 0; i < n; i++) x2 += xs(i, 0) * xs(i, 0);
        kappa = 1 + fabsl(t) * nv;
        LD lim = tol(n, 60) * kappa * kappa;
        // H = I - tau J v v^T
        auto apply = [&](Mat m) { for (int j = 0; j < m.c; j++) { LD q = 0; for (int i = 0; i <= n; i++) q += v[i] * m(i, j); q *= t; for (int i = 0; i <= n; i++) m(i, j) += i == 0 ? -q : q * v[i]; } return m; };
        Mat z(n + 1, 1); z(0, 0) = a; for (int i = 0; i < n; i++) z(i + 1, 0) = xs(i, 0);
        Mat h = apply(z); h(0, 0) -= fl & ARMAS_HHNEGATIVE ? -b : b;
        check_norm("hhouse", (op.desc + ": Hx").c_str(), fro(h), lim * (fabsl(a) + sqrtl(x2)) + floor);
        check_norm("hhouse", (op.desc + ": |beta|").c_str(), fabsl(b * b - (a * a - x2)), lim * (a * a) + floor * floor);
        if ((fl & ARMAS_NONNEG) && b < 0) violation("wrong-result", "hhouse", "%s: beta is %Lg", op.desc.c_str(), b);
        Mat c(n + 1, p), c1 = C1.saved(), c2 = C2.saved(), g1 = C1.mat(), g2 = C2.mat(), g(n + 1, p);
        for (int j = 0; j < p; j++) { c(0, j) = right ? c1(j, 0) : c1(0, j); g(0, j) = right ? g1(j, 0) : g1(0, j); for (int i = 0; i < n; i++) { c(i + 1, j) = right ? c2(j, i) : c2(i, j); g(i + 1, j) = right ? g2(j, i) : g2(i, j); } }
        check_norm("hhouse", (op.desc + ": applied").c_str(), fro(sub(apply(c), g)), lim * fro(c) + 1e-290L);
    };
}
// recursive butterfly transforms.  The matrix is padded to a multiple of 2^d; a row whose partner lies in the padding is only scaled.
Mat rbt_dense(const Mat &R, int n) {     // B<n/k> * ... * B<n/2> * B<n>, restricted to n rows (padded size a multiple of 2^d)
    int d = R.c, td = 1 << d, N = (n + td - 1) & ~(td - 1);
    Mat U = ident(n);
    for (int lev = 0; lev < d; lev++) {      // largest butterfly first, stored in the last column
        int sz = N >> lev, col = d - 1 - lev; Mat B(n, n);
        for (int o = 0; o < n; o += sz) {
            int h = sz / 2;
            for (int i = 0; i < h && o + i < n; i++) {
                int p = o + i, q = o + i + h;
                B(p, p) = R(p, col);
                if (q < n) { B(p, q) = R(q, col); B(q, p) = R(p, col); B(q, q) = -R(q, col); }
            }
        }
        U = mul(B, U);
    }
    return scaled(U, powl(sqrtl(0.5L), d));
}
template <int BOTH> void g_rbt(DOp &op, const Layout &l, int maxd) {
    int d = P("depth", 1, 3), n = (1 << d) + P("n", 0, maxd), p = gen_dim("p", maxd), flags = 0;
    if (PF("even", .4)) n = (n >> d) << d;
    if (!BOTH) { flags |= PF("right", .5) ? ARMAS_RIGHT : ARMAS_LEFT; if (PF("trans", .5)) flags |= ARMAS_TRANS; }
    Operand &A = BOTH ? op.mk("A", n, n, l, true) : flags & ARMAS_RIGHT ? op.mk("A", p, n, l, true) : op.mk("A", n, p, l, true);
    Operand &U = op.mk("U", n, d, l, false), &V = op.mk("V", n, d, l, false);
    U.fill([&](int, int) { return exp((wrng.unit() - 0.5) / 10); }); V.fill([&](int, int) { return exp((wrng.unit() - 0.5) / 10); });
    setdesc(op, A.rows(), A.cols(), d, flags);
    op.call = [&A, &U, &V, flags](armas_conf_t *cf) { return BOTH ? armas_update2_rbt(&A.m, &U.m, &V.m, cf) : armas_mult_rbt(&A.m, &U.m, flags, cf); };
    op.verify = [&op, &A, &U, &V, n, d, flags](int) {
        Mat u = rbt_dense(U.mat(), n), a = A.saved(), w;
        if (BOTH) w = mul(tr(u), mul(a, rbt_dense(V.mat(), n)));
        else { if (flags & ARMAS_TRANS) u = tr(u); w = flags & ARMAS_RIGHT ? mul(a, u) : mul(u, a); }
        check_norm(op.name.c_str(), op.desc.c_str(), fro(sub(A.mat(), w)), tol(8 * d, 20) * (fro(a) + fro(w)));
    };
}
// eigenvalues and vectors of diag(d) + rho z z^T by the secular equation
void g_trdsec(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd); double rho = ldexp(1.0, P("rho", 0, 8) - 4);
    int inplace = PC("inplace", {0, 0, 1, 2}); bool novec = PF("novec", .25), signs = PF("signs", .5);
    Operand &d = op.mkv("d", n, l, false), &z = op.mkv("z", n, l, false), &y = op.mkv("y", n, l, true), &v = op.mkv("v", n, l, true);
    Operand &Qd = op.mk("Qd", n, n, l, true), &Q = op.mk("Q", n, n, l, true);
    double t = 2 * wrng.unit() - 1; LD nz = 0;
    for (int i = 0; i < n; i++) { vat(d, i) = t; t += 0.02 + wrng.unit(); double q = (0.05 + wrng.unit()) * (signs && wrng.below(2) ? -1 : 1); vat(z, i) = q; nz += (LD)q * q; }
    for (int i = 0; i < n; i++) vat(z, i) = (double)(vat(z, i) / sqrtl(nz));
    op.iterative = true;
    setdesc(op, n, n, -1, 0); op.desc += novec ? " values" : inplace ? " in place" : "";
    op.call = [&, rho, inplace, novec](armas_conf_t *cf) {
        if (novec) return armas_trdsec_solve(&y.m, &d.m, &z.m, &v.m, rho, cf);
        int rc = armas_trdsec_solve_vec(&y.m, &v.m, &Qd.m, &d.m, &z.m, rho, cf);
        if (rc) return rc;
        return armas_trdsec_eigen(inplace ? &Qd.m : &Q.m, &v.m, inplace == 2 ? 0 : &Qd.m, cf);
    };
    op.verify = [&op, &d, &z, &y, &Q, &Qd, n, rho, inplace, novec](int) {
        Mat dv = vmat(d), zv = vmat(z), M = scaled(mul(zv, tr(zv)), rho), w = vmat(y);
        for (int i = 0; i < n; i++) M(i, i) += dv(i, 0);
        LD nm = fro(M), lim = tol(n, 60) * nm;
        for (int i = 0; i < n; i++) if (w(i, 0) < dv(i, 0) - lim || (i + 1 < n && w(i, 0) > dv(i + 1, 0) + lim)) violation("wrong-result", "trdsec", "%s: eigenvalue %d is not between its neighbours", op.desc.c_str(), i);
        LD tr1 = 0, tr2 = 0; for (int i = 0; i < n; i++) { tr1 += M(i, i); tr2 += w(i, 0); }
        check_norm("trdsec", (op.desc + ": trace").c_str(), fabsl(tr1 - tr2), lim * sqrtl(n));
        // every computed value solves the secular equation: sum z^2/(d-y) = -1/rho (as determinant sign is not enough, use the distance to a root)
        for (int i = 0; i < n; i++) {
            auto f = [&](LD x) { LD s = 1; for (int k = 0; k < n; k++) s += rho * zv(k, 0) * zv(k, 0) / (dv(k, 0) - x); return s; };
            LD lo = fmaxl(w(i, 0) - lim, dv(i, 0) + 1e-18L * nm), hi = w(i, 0) + lim; if (i + 1 < n) hi = fminl(hi, dv(i + 1, 0) - 1e-18L * nm);
            if (f(lo) > 0 && w(i, 0) - lim > dv(i, 0)) violation("wrong-result", "trdsec", "%s: value %d lies above the root", op.desc.c_str(), i);
            if (f(hi) < 0 && (i + 1 == n || w(i, 0) + lim < dv(i + 1, 0))) violation("wrong-result", "trdsec", "%s: value %d lies below the root", op.desc.c_str(), i);
        }
        if (novec) return;
        Mat q = inplace ? Qd.mat() : Q.mat(), W(n, n); for (int i = 0; i < n; i++) W(i, i) = w(i, 0);
        check_orth_cols("trdsec", op.desc.c_str(), q);
        check_norm("trdsec", (op.desc + " MQ-QW").c_str(), fro(sub(mul(M, q), mul(q, W))), lim);
    };
}
}

const OpDef op_defs[] = {
    {"mult", G_BLAS, g_b3<B3_GEMM>}, {"mult_sym", G_BLAS, g_b3<B3_SYMM>}, {"mult_trm", G_BLAS, g_b3<B3_TRMM>}, {"solve_trm", G_BLAS, g_b3<B3_TRSM>},
    {"update_sym", G_BLAS, gx_update_sym}, {"update2_sym", G_BLAS, gx_update2_sym}, {"update_trm", G_BLAS, gx_update_trm},
    {"mvmult", G_BLAS | G_L2, g_mvmult<0>}, {"mvmult_sym", G_BLAS | G_L2, g_mvmult_sym<0>}, {"mvmult_trm", G_BLAS | G_L2, g_mv_trm<0, 0>}, {"mvsolve_trm", G_BLAS | G_L2, g_mv_trm<0, 1>},
    {"mvupdate", G_BLAS | G_L2, g_mvupdate<0>}, {"mvupdate_sym", G_BLAS | G_L2, g_mvupdate_tri<0, 1>}, {"mvupdate2_sym", G_BLAS | G_L2, g_mvupdate_tri<0, 2>}, {"mvupdate_trm", G_BLAS | G_L2, g_mvupdate_tri<0, 3>},
    {"level1", G_BLAS | G_L2, g_level1}, {"mult_diag", G_BLAS | G_L2, g_diag<0>}, {"solve_diag", G_BLAS | G_L2, g_diag<1>},
    {"ext_mult", G_EXT, g_ext_b3<B3_GEMM>}, {"ext_mult_sym", G_EXT, g_ext_b3<B3_SYMM>}, {"ext_mult_trm", G_EXT, g_ext_b3<B3_TRMM>}, {"ext_solve_trm", G_EXT, g_ext_b3<B3_TRSM>},
    {"ext_mvmult", G_EXT, g_mvmult<1>}, {"ext_mvmult_sym", G_EXT, g_mvmult_sym<1>}, {"ext_mvmult_trm", G_EXT, g_mv_trm<1, 0>}, {"ext_mvsolve_trm", G_EXT, g_mv_trm<1, 1>},
    {"ext_mvupdate", G_EXT, g_mvupdate<1>}, {"ext_mvupdate_sym", G_EXT, g_mvupdate_tri<1, 1>}, {"ext_mvupdate2_sym", G_EXT, g_mvupdate_tri<1, 2>},
    {"ext_adot", G_EXT, g_ext_adot}, {"ext_axpby", G_EXT, g_ext_axpby},
    {"lufactor", G_FACT, g_lufactor}, {"lusolve", G_FACT, g_lusolve}, {"luinverse", G_FACT, g_luinverse},
    {"cholfactor", G_FACT, g_cholesky}, {"cholsolve", G_FACT, g_cholsolve}, {"cholupdate", G_FACT, g_cholupdate}, {"cholinverse", G_FACT, g_cholinverse},
    {"inverse_trm", G_FACT, g_inverse_trm}, {"ldlfactor", G_FACT, g_ldlfactor}, {"ldlsolve", G_FACT, g_ldlsolve}, {"ldlinverse", G_FACT, g_ldlinverse},
    {"bkfactor+bksolve", G_FACT, g_bkfactor}, {"bkfactor", G_FACT, g_bkfactor_w},
    {"qrfactor", G_FACT, g_qfactor<QR>}, {"qlfactor", G_FACT, g_qfactor<QL>}, {"lqfactor", G_FACT, g_qfactor<LQ>}, {"rqfactor", G_FACT, g_qfactor<RQ>},
    {"qrbuild", G_FACT, g_qbuild<QR>}, {"qlbuild", G_FACT, g_qbuild<QL>}, {"lqbuild", G_FACT, g_qbuild<LQ>}, {"rqbuild", G_FACT, g_qbuild<RQ>},
    {"qrmult", G_FACT, g_qmult<QR>}, {"qlmult", G_FACT, g_qmult<QL>}, {"lqmult", G_FACT, g_qmult<LQ>}, {"rqmult", G_FACT, g_qmult<RQ>},
    {"qrsolve", G_FACT, g_qsolve<QR>}, {"lqsolve", G_FACT, g_qsolve<LQ>}, {"qrtfactor", G_FACT, g_qrtfactor},
    {"hessreduce", G_FACT, g_hessreduce}, {"hessmult", G_FACT, g_hessmult}, {"housemult", G_FACT, g_housemult},
    {"qrreflector", G_FACT, g_reflector<QR>}, {"qlreflector", G_FACT, g_reflector<QL>}, {"lqreflector", G_FACT, g_reflector<LQ>}, {"rqreflector", G_FACT, g_reflector<RQ>},
    {"house", G_FACT, g_house}, {"houseapply", G_FACT, g_houseapply}, {"hhouse", G_FACT, g_hhouse}, {"mult_rbt", G_FACT, g_rbt<0>}, {"update2_rbt", G_FACT, g_rbt<1>},
    {"bdreduce", G_EIG, g_bdreduce}, {"bdmult", G_EIG, g_bdmult}, {"bdbuild", G_EIG, g_bdbuild},
    {"trdreduce", G_EIG, g_trdreduce}, {"trdmult", G_EIG, g_trdmult}, {"trdbuild", G_EIG, g_trdbuild},
    {"trdeigen", G_EIG, g_trdeigen}, {"trdbisect", G_EIG, g_trdbisect}, {"trdsec", G_EIG, g_trdsec}, {"eigen_sym", G_EIG, g_eigen_sym}, {"eigen_sym_selected", G_EIG, g_eigen_selected},
    {"bdsvd", G_EIG, g_bdsvd}, {"dqds", G_EIG, g_dqds}, {"svd", G_EIG, g_svd},
};
const int n_op_defs = sizeof op_defs / sizeof op_defs[0];

void gen_op(DOp &op, int groups, const Layout &l, int maxd) {
    op_reshaped = false;
    std::vector<const OpDef *> c;
    const char *only = getenv("SIM_OP");   // development aid
    struct { const OpDef *d; int n; } tabs[] = {{op_defs, n_op_defs}, {level_defs, n_level_defs}, {compat_defs, n_compat_defs}};
    for (auto &t : tabs) for (int i = 0; i < t.n; i++)
        if ((t.d[i].group & groups) && (!only || !strcmp(only, t.d[i].name))) c.push_back(&t.d[i]);
    const OpDef &d = *c[P("op", 0, (int)c.size() - 1)];
    op.name = d.name;
    d.gen(op, l, maxd);
    op.save();
}
