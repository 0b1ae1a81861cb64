// C17: extended precision operations against quadruple precision references, on operands with massive cancellation.
#include "callop.h"
using namespace sim;
extern "C" int armas_ext_sum(double *, double, const armas_dense_t *, int, armas_conf_t *);   // exported, not declared in a header

namespace {
typedef __float128 Q;
Q qabs(Q x) { return x < 0 ? -x : x; }
struct MQ {
    int r = 0, c = 0; std::vector<Q> v;
    MQ() {}
    MQ(int r_, int c_) : r(r_), c(c_), v((size_t)r_ * c_, (Q)0) {}
    Q &operator()(int i, int j) { return v[(size_t)j * r + i]; }
    Q operator()(int i, int j) const { return v[(size_t)j * r + i]; }
};
MQ qm(const Operand &o, bool saved) { MQ a(o.m.rows, o.m.cols); for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) a(i, j) = saved ? o.snap[(size_t)(o.c0 + j) * o.step + o.r0 + i] : o.at(i, j); return a; }
MQ qv(const Operand &o, bool saved) { MQ a = qm(o, saved); a.r = a.r * a.c; a.c = 1; return a; }   // row or column, elements in order
MQ qt(const MQ &a) { MQ t(a.c, a.r); for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) t(j, i) = a(i, j); return t; }
MQ qmul(const MQ &a, const MQ &b) {
    if (a.c != b.r) harness_error("qmul: %dx%d * %dx%d", a.r, a.c, b.r, b.c);
    MQ c(a.r, b.c);
    for (int j = 0; j < b.c; j++) for (int k = 0; k < a.c; k++) { Q x = b(k, j); if (x != 0) for (int i = 0; i < a.r; i++) c(i, j) += a(i, k) * x; }
    return c;
}
MQ qabsm(MQ a) { for (auto &x : a.v) x = qabs(x); return a; }
MQ qcomb(Q s, const MQ &a, Q t, const MQ &b) { MQ c = a; for (size_t i = 0; i < c.v.size(); i++) c.v[i] = s * a.v[i] + t * b.v[i]; return c; }
MQ qscaled(Q s, MQ a) { for (auto &x : a.v) x *= s; return a; }
MQ qtri(const MQ &a, int flags) {
    MQ t(a.r, a.c);
    for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) t(i, j) = i == j ? (flags & ARMAS_UNIT ? (Q)1 : a(i, j)) : (flags & ARMAS_UPPER ? i < j : i > j) ? a(i, j) : (Q)0;
    return t;
}
MQ qsym(const MQ &a, bool upper) { MQ m = a; for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) if (upper ? i > j : i < j) m(i, j) = a(j, i); return m; }

const Q U = 0.5 * DBL_EPSILON;
// |got - want| <= 3 u |want| + c u^2 scale: as if computed in twice the working precision and rounded
void close_ext(const DOp &op, const MQ &got, const MQ &want, const MQ &scale, double c) {
    for (int j = 0; j < want.c; j++) for (int i = 0; i < want.r; i++) {
        Q d = qabs(got(i, j) - want(i, j)), lim = 3 * U * qabs(want(i, j)) + (Q)c * U * U * scale(i, j) + (Q)1e-300;
        if (!(d <= lim))
            violation("lost-precision", op.name.c_str(), "%s: element (%d,%d) of %dx%d is %.17g, expected %.17g (relative error %.3g, condition %.3g)", op.desc.c_str(), i, j, want.r, want.c,
                      (double)got(i, j), (double)want(i, j), (double)(d / (qabs(want(i, j)) + (Q)1e-300)), (double)(scale(i, j) / (qabs(want(i, j)) + (Q)1e-300)));
    }
    checked();
}
double cn(int n) { return 8.0 * (n + 8) * (n + 8); }

double rnd() { return 2 * wrng.unit() - 1; }
double lev;   // how closely partners cancel: 1 not at all .. 0 exactly
void gen_level() { static const double l[] = {1, 1 / 256.0, 0x1p-20, 0x1p-30, 0x1p-40, 0x1p-51, 0}; lev = l[P("cancel", 0, 6)]; }
double jit(double x) { return x * (1 + lev * rnd()); }
double graded(int on) { return on ? ldexp(1.0, (int)wrng.below(41) - 20) : 1.0; }
// partners along an inner index of length n: partner[k] is an earlier index or -1
std::vector<int> pairing(int n) {
    std::vector<int> p(n, -1), o(n);
    for (int i = 0; i < n; i++) o[i] = i;
    int kind = P("pairs", 0, 2);   // neighbours, halves, shuffled
    if (kind == 2) for (int i = n - 1; i > 0; i--) std::swap(o[i], o[wrng.below(i + 1)]);
    for (int t = 0; t < n / 2; t++) {
        int a = kind == 1 ? t : o[2 * t], b = kind == 1 ? n / 2 + t : o[2 * t + 1];
        p[a > b ? a : b] = a > b ? b : a;
    }
    return p;
}
// fills a(i,k), i < m and b(k,j), j < q so that the sums over k cancel
void fill_inner(int m, int n, int q, const std::function<double &(int, int)> &a, const std::function<double &(int, int)> &b) {
    std::vector<int> p = pairing(n);
    int g = P("graded", 0, 2) == 2;
    for (int k = 0; k < n; k++) {
        double s = graded(g), f = n % 2 && k + 1 == n ? (lev ? lev : 0x1p-52) : 1;
        for (int i = 0; i < m; i++) a(i, k) = p[k] < 0 ? rnd() * s * f : jit(-a(i, p[k]));
        for (int j = 0; j < q; j++) b(k, j) = p[k] < 0 ? rnd() : jit(b(p[k], j));
    }
}
// target that cancels the product (times alpha) when multiplied by beta
void fill_target(const std::function<double &(int, int)> &c, const MQ &prod, double alpha, double beta, const char *nm) {
    int kind = P(nm, 0, 2);
    for (int j = 0; j < prod.c; j++) for (int i = 0; i < prod.r; i++)
        c(i, j) = kind == 2 && beta != 0 ? jit((double)(-(Q)alpha * prod(i, j) / (Q)beta)) : rnd() * (kind ? (lev ? lev : 0x1p-50) : 1);
}
void xdesc(DOp &op, int m, int n, int k, int flags, double a, double b) {
    char s[300];
    snprintf(s, sizeof s, "%s %dx%d inner %d alpha=%g beta=%g%s%s%s%s%s%s%s%s cancellation %.2g", op.name.c_str(), m, n, k, a, b, flags & ARMAS_UPPER ? " UPPER" : "", flags & ARMAS_LOWER ? " LOWER" : "",
             flags & ARMAS_RIGHT ? " RIGHT" : "", flags & ARMAS_LEFT ? " LEFT" : "", flags & ARMAS_TRANSA ? " TRANSA" : "", flags & ARMAS_TRANSB ? " TRANSB" : "", flags & ARMAS_UNIT ? " UNIT" : "", flags & ARMAS_ABS ? " ABS" : "", lev);
    op.desc = s;
}
int uplo() { return PF("upper", .5) ? ARMAS_UPPER : ARMAS_LOWER; }
int other(int t) { return t & ARMAS_UPPER ? ARMAS_LOWER : ARMAS_UPPER; }
void poison_tri(Operand &o, int tri) { for (int j = 0; j < o.cols(); j++) for (int i = 0; i < o.rows(); i++) if (tri == ARMAS_LOWER ? i > j : i < j) o.at(i, j) = NAN; }

void x_adot(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd); double al = gen_scalar("alpha");
    Operand &x = op.mkv("x", n, l, false, 1), &y = op.mkv("y", n, l, false, 1);
    auto r = std::make_shared<double>(0.0); op.scal.push_back(r);
    fill_inner(1, n, 1, [&](int, int k) -> double & { return vat(x, k); }, [&](int k, int) -> double & { return vat(y, k); });
    xdesc(op, 1, 1, n, 0, al, 0);
    op.call = [&x, &y, al, r](armas_conf_t *cf) { *r = 0.25; return armas_ext_adot(r.get(), al, &x.m, &y.m, cf); };
    op.verify = [&op, &x, &y, al, r, n](int) {
        MQ a = qt(qv(x, 1)), b = qv(y, 1), g(1, 1); g(0, 0) = *r;
        close_ext(op, g, qscaled(al, qmul(a, b)), qscaled(fabs(al), qmul(qabsm(a), qabsm(b))), cn(n));
    };
}
void x_sum(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", 3 * maxd), flags = PF("abs", .3) ? ARMAS_ABS : 0; double al = gen_scalar("alpha");
    Operand &x = op.mkv("x", n, l, false, 1);
    auto r = std::make_shared<double>(0.0); op.scal.push_back(r);
    double one = 1;
    fill_inner(1, n, 0, [&](int, int k) -> double & { return vat(x, k); }, [&](int, int) -> double & { return one; });
    xdesc(op, 1, 1, n, flags, al, 0);
    op.call = [&x, al, flags, r](armas_conf_t *cf) { *r = 0.25; return armas_ext_sum(r.get(), al, &x.m, flags, cf); };
    op.verify = [&op, &x, al, flags, r, n](int) {
        MQ a = qv(x, 1), g(1, 1), w(1, 1), s(1, 1); g(0, 0) = *r;
        for (int i = 0; i < n; i++) { w(0, 0) += (Q)al * (flags & ARMAS_ABS ? qabs(a(i, 0)) : a(i, 0)); s(0, 0) += qabs((Q)al * a(i, 0)); }
        close_ext(op, g, w, s, cn(n));
    };
}
void x_axpby(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", 3 * maxd); double al = gen_scalar("alpha"), be = gen_scalar("beta");
    Operand &x = op.mkv("x", n, l, false, 1), &y = op.mkv("y", n, l, true, 1);
    for (int i = 0; i < n; i++) vat(x, i) = rnd() * graded(i & 1);
    MQ xq(n, 1); for (int i = 0; i < n; i++) xq(i, 0) = vat(x, i);
    fill_target([&](int i, int) -> double & { return vat(y, i); }, xq, al, be, "target");
    xdesc(op, n, 1, 1, 0, al, be);
    op.call = [&x, &y, al, be](armas_conf_t *cf) { return armas_ext_axpby(be, &y.m, al, &x.m, cf); };
    op.verify = [&op, &x, &y, al, be](int) {
        MQ a = qv(x, 1), b = qv(y, 1);
        close_ext(op, qv(y, 0), qcomb(be, b, al, a), qcomb(fabs(be), qabsm(b), fabs(al), qabsm(a)), 64);
    };
}
void x_mvmult(DOp &op, const Layout &l, int maxd) {
    int m = gen_dim("m", maxd), n = gen_dim("n", maxd), flags = PF("trans", .5) ? ARMAS_TRANS : 0;   // op(A) is m x n
    double al = gen_scalar("alpha"), be = gen_scalar("beta");
    bool t = flags;
    Operand &A = op.mk("A", t ? n : m, t ? m : n, l, false), &x = op.mkv("x", n, l, false, 1), &y = op.mkv("y", m, l, true, 1);
    fill_inner(m, n, 1, [&](int i, int k) -> double & { return t ? A.at(k, i) : A.at(i, k); }, [&](int k, int) -> double & { return vat(x, k); });
    MQ a = qm(A, 0); if (t) a = qt(a);
    fill_target([&](int i, int) -> double & { return vat(y, i); }, qmul(a, qv(x, 0)), al, be, "target");
    xdesc(op, m, 1, n, flags, al, be);
    op.call = [&A, &x, &y, al, be, flags](armas_conf_t *cf) { return armas_ext_mvmult(be, &y.m, al, &A.m, &x.m, flags, cf); };
    op.verify = [&op, &A, &x, &y, al, be, t, n](int) {
        MQ a = qm(A, 1), b = qv(x, 1), c = qv(y, 1); if (t) a = qt(a);
        close_ext(op, qv(y, 0), qcomb(be, c, al, qmul(a, b)), qcomb(fabs(be), qabsm(c), fabs(al), qmul(qabsm(a), qabsm(b))), cn(n));
    };
}
// symmetric matrix with cancelling pairs in every row (neighbours 2k, 2k+1), only the triangle of flags is stored
void fill_symm(Operand &A, int n, int flags) {
    int g = P("graded", 0, 2) == 2;
    std::vector<double> s(n); for (auto &x : s) x = graded(g);
    MQ a(n, n);
    for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) {
        int I = i / 2 * 2, J = j / 2 * 2;
        double v;
        if (i == I && j == J) v = rnd() * s[I] * s[J] * (n % 2 && (i == n - 1 || j == n - 1) ? (lev ? lev : 0x1p-52) : 1);
        else v = jit((double)a(I < J ? I : J, I < J ? J : I) * ((i - I + j - J) % 2 ? -1 : 1));
        a(i, j) = a(j, i) = v;
    }
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) A.at(i, j) = (double)a(i, j);
    poison_tri(A, other(flags));
}
void x_mvmult_sym(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", maxd), flags = uplo();
    double al = gen_scalar("alpha"), be = gen_scalar("beta");
    Operand &A = op.mk("A", n, n, l, false), &x = op.mkv("x", n, l, false, 1), &y = op.mkv("y", n, l, true, 1);
    fill_symm(A, n, flags);
    for (int k = 0; k < n; k++) vat(x, k) = k % 2 ? jit(vat(x, k - 1)) : rnd();
    fill_target([&](int i, int) -> double & { return vat(y, i); }, qmul(qsym(qm(A, 0), flags & ARMAS_UPPER), qv(x, 0)), al, be, "target");
    xdesc(op, n, 1, n, flags, al, be);
    op.call = [&A, &x, &y, al, be, flags](armas_conf_t *cf) { return armas_ext_mvmult_sym(be, &y.m, al, &A.m, &x.m, flags, cf); };
    op.verify = [&op, &A, &x, &y, al, be, flags, n](int) {
        MQ a = qsym(qm(A, 1), flags & ARMAS_UPPER), b = qv(x, 1), c = qv(y, 1);
        close_ext(op, qv(y, 0), qcomb(be, c, al, qmul(a, b)), qcomb(fabs(be), qabsm(c), fabs(al), qmul(qabsm(a), qabsm(b))), cn(n));
    };
}
int trm_flags() { int f = uplo(); if (PF("unit", .3)) f |= ARMAS_UNIT; if (PF("trans", .5)) f |= ARMAS_TRANS; return f; }
// triangular matrix whose products with paired vectors cancel along its columns (right: rows) of op(A)
void fill_trm(Operand &A, int n, int flags, bool right, const std::vector<int> &p) {
    bool cols = right == !!(flags & ARMAS_TRANS);   // inner index runs over the columns of A (as stored)
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) {
        double &e = cols ? A.at(i, k) : A.at(k, i);
        e = p[k] < 0 ? rnd() : jit(-(cols ? A.at(i, p[k]) : A.at(p[k], i)));
    }
    for (int i = 0; i < n; i++) if (flags & ARMAS_UNIT) A.at(i, i) = NAN;
    poison_tri(A, other(flags));
}
void x_trm(DOp &op, const Layout &l, int maxd, bool vec) {
    int m = gen_dim("m", maxd), n = vec ? 1 : gen_dim("n", maxd), flags = trm_flags();
    bool right = !vec && PF("right", .5);
    if (!vec) flags |= right ? ARMAS_RIGHT : ARMAS_LEFT;
    double al = gen_scalar("alpha"); int d = right ? n : m;
    Operand &A = op.mk("A", d, d, l, false), &B = vec ? op.mkv("x", m, l, true, 1) : op.mk("B", m, n, l, true);
    std::vector<int> p = pairing(d);
    fill_trm(A, d, flags, right, p);
    auto at = [&](int i, int j) -> double & { return vec ? vat(B, i) : B.at(i, j); };
    for (int k = 0; k < d; k++) for (int j = 0; j < (right ? m : n); j++) {
        double &e = right ? at(j, k) : at(k, j);
        e = p[k] < 0 ? rnd() : jit(right ? at(j, p[k]) : at(p[k], j));
    }
    xdesc(op, m, n, d, flags, al, 0);
    op.call = [&A, &B, al, flags, vec](armas_conf_t *cf) { return vec ? armas_ext_mvmult_trm(&B.m, al, &A.m, flags, cf) : armas_ext_mult_trm(&B.m, al, &A.m, flags, cf); };
    op.verify = [&op, &A, &B, al, flags, vec, right, d](int) {
        MQ a = qtri(qm(A, 1), flags), b = vec ? qv(B, 1) : qm(B, 1), g = vec ? qv(B, 0) : qm(B, 0);
        if (flags & ARMAS_TRANS) a = qt(a);
        close_ext(op, g, qscaled(al, right ? qmul(b, a) : qmul(a, b)), qscaled(fabs(al), right ? qmul(qabsm(b), qabsm(a)) : qmul(qabsm(a), qabsm(b))), cn(d));
    };
}
void x_mvmult_trm(DOp &op, const Layout &l, int maxd) { x_trm(op, l, maxd, true); }
void x_mult_trm(DOp &op, const Layout &l, int maxd) { x_trm(op, l, maxd, false); }
// quadruple precision substitution; low: a is lower triangular
MQ qsolve(const MQ &a, const MQ &b, bool low) {
    int n = a.r; MQ x = b;
    for (int j = 0; j < b.c; j++) for (int t = 0; t < n; t++) {
        int i = low ? t : n - 1 - t; Q s = b(i, j);
        if (low) for (int k = 0; k < i; k++) s -= a(i, k) * x(k, j); else for (int k = i + 1; k < n; k++) s -= a(i, k) * x(k, j);
        x(i, j) = s / a(i, i);
    }
    return x;
}
void x_solve(DOp &op, const Layout &l, int maxd, bool vec) {
    int m = gen_dim("m", maxd), n = vec ? 1 : gen_dim("n", maxd), flags = trm_flags();
    bool right = !vec && PF("right", .5);
    if (!vec) flags |= right ? ARMAS_RIGHT : ARMAS_LEFT;
    double al = gen_scalar("alpha"); int d = right ? n : m;
    Operand &A = op.mk("A", d, d, l, false), &B = vec ? op.mkv("x", m, l, true, 1) : op.mk("B", m, n, l, true);
    double g = std::vector<double>{2.0 / d, .3, .6, 1}[P("growth", 0, 3)];
    A.fill([&](int i, int j) { return i == j ? (1 + wrng.unit()) * (wrng.below(2) ? 1 : -1) : g * rnd(); });
    auto at = [&](int i, int j) -> double & { return vec ? vat(B, i) : B.at(i, j); };
    int rhs = P("rhs", 0, 1);
    auto full = [d, flags](MQ a) { a = qtri(a, flags); if (flags & ARMAS_TRANS) a = qt(a); return a; };
    MQ T = full(qm(A, 0)), X(m, n);
    for (auto &x : X.v) x = (Q)(int)(wrng.below(19) - 9);
    MQ Bq = right ? qmul(X, T) : qmul(T, X);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) at(i, j) = rhs ? (double)(Bq(i, j)) : rnd();
    if (flags & ARMAS_UNIT) for (int i = 0; i < d; i++) A.at(i, i) = NAN;
    poison_tri(A, other(flags));
    xdesc(op, m, n, d, flags, al, 0);
    op.call = [&A, &B, al, flags, vec](armas_conf_t *cf) { return vec ? armas_ext_mvsolve_trm(&B.m, al, &A.m, flags, cf) : armas_ext_solve_trm(&B.m, al, &A.m, flags, cf); };
    op.callw = [&A, &B, al, flags, vec](armas_wbuf_t *w, armas_conf_t *cf) { return vec ? armas_ext_mvsolve_trm_w(&B.m, al, &A.m, flags, w, cf) : armas_ext_solve_trm_w(&B.m, al, &A.m, flags, w, cf); };
    op.verify = [&op, &A, &B, al, flags, vec, right, d, full](int) {
        MQ T = full(qm(A, 1)), b = vec ? qv(B, 1) : qm(B, 1), g = vec ? qv(B, 0) : qm(B, 0);
        if (right) { T = qt(T); b = qt(b); g = qt(g); }
        bool low = !(flags & ARMAS_UPPER) == !(!!(flags & ARMAS_TRANS) != right);
        MQ x = qsolve(T, qscaled(al, b), low), M = qmul(qabsm(qsolve(T, [d] { MQ e(d, d); for (int i = 0; i < d; i++) e(i, i) = 1; return e; }(), low)), qabsm(T));
        MQ w = qmul(M, qabsm(x)); w = qcomb(1, w, 1, qmul(M, w));
        close_ext(op, g, x, w, cn(d));
    };
}
void x_mvsolve_trm(DOp &op, const Layout &l, int maxd) { x_solve(op, l, maxd, true); }
void x_solve_trm(DOp &op, const Layout &l, int maxd) { x_solve(op, l, maxd, false); }
// A = beta A + alpha x y^T (kind 0), x x^T (1), x y^T + y x^T (2)
void x_update(DOp &op, const Layout &l, int maxd, int kind) {
    int n = gen_dim("n", maxd), m = kind ? n : gen_dim("m", maxd), flags = kind ? uplo() : 0;
    double al = gen_scalar("alpha"), be = gen_scalar("beta");
    Operand &x = op.mkv("x", m, l, false, 1);
    Operand *y = kind == 1 ? &x : &op.mkv("y", n, l, false, 1);
    Operand &A = op.mk("A", m, n, l, true);
    for (int i = 0; i < m; i++) vat(x, i) = rnd();
    // x_i y_j and y_i x_j cancel when y is x times an alternating sign
    if (kind != 1) for (int i = 0; i < n; i++) vat(*y, i) = kind == 2 ? jit(vat(x, i)) * (i % 2 ? 1 : -1) : rnd();
    auto prod = [kind](const MQ &a, const MQ &b) { MQ p = qmul(a, qt(b)); return kind == 2 ? qcomb(1, p, 1, qmul(b, qt(a))) : p; };
    fill_target([&](int i, int j) -> double & { return A.at(i, j); }, prod(qv(x, 0), qv(*y, 0)), al, be, "target");
    if (kind) { poison_tri(A, other(flags)); op.keep.push_back({&A, other(flags)}); }
    xdesc(op, m, n, kind, flags, al, be);
    op.call = [&A, &x, y, al, be, flags, kind](armas_conf_t *cf) {
        return kind == 0 ? armas_ext_mvupdate(be, &A.m, al, &x.m, &y->m, cf) : kind == 1 ? armas_ext_mvupdate_sym(be, &A.m, al, &x.m, flags, cf) : armas_ext_mvupdate2_sym(be, &A.m, al, &x.m, &y->m, flags, cf);
    };
    op.verify = [&op, &A, &x, y, al, be, flags, kind, prod](int) {
        MQ c = qm(A, 1), g = qm(A, 0), a = qv(x, 1), b = qv(*y, 1), w = qcomb(be, c, al, prod(a, b)), s = qcomb(fabs(be), qabsm(c), fabs(al), prod(qabsm(a), qabsm(b)));
        if (kind) { g = qtri(g, flags); w = qtri(w, flags); s = qtri(s, flags); }
        close_ext(op, g, w, s, 512);
    };
}
void x_mvupdate(DOp &op, const Layout &l, int maxd) { x_update(op, l, maxd, 0); }
void x_mvupdate_sym(DOp &op, const Layout &l, int maxd) { x_update(op, l, maxd, 1); }
void x_mvupdate2_sym(DOp &op, const Layout &l, int maxd) { x_update(op, l, maxd, 2); }
void x_mult(DOp &op, const Layout &l, int maxd) {
    int m = gen_dim("m", maxd), n = gen_dim("n", maxd), k = gen_inner("k", maxd), flags = 0;
    if (PF("ta", .4)) flags |= ARMAS_TRANSA;
    if (PF("tb", .4)) flags |= ARMAS_TRANSB;
    double al = gen_scalar("alpha"), be = gen_scalar("beta");
    bool ta = flags & ARMAS_TRANSA, tb = flags & ARMAS_TRANSB;
    Operand &A = op.mk("A", ta ? k : m, ta ? m : k, l, false), &B = op.mk("B", tb ? n : k, tb ? k : n, l, false), &C = op.mk("C", m, n, l, true);
    fill_inner(m, k, n, [&](int i, int t) -> double & { return ta ? A.at(t, i) : A.at(i, t); }, [&](int t, int j) -> double & { return tb ? B.at(j, t) : B.at(t, j); });
    MQ a = qm(A, 0), b = qm(B, 0); if (ta) a = qt(a); if (tb) b = qt(b);
    fill_target([&](int i, int j) -> double & { return C.at(i, j); }, qmul(a, b), al, be, "target");
    xdesc(op, m, n, k, flags, al, be);
    op.call = [&A, &B, &C, al, be, flags](armas_conf_t *cf) { return armas_ext_mult(be, &C.m, al, &A.m, &B.m, flags, cf); };
    op.verify = [&op, &A, &B, &C, al, be, ta, tb, k](int) {
        MQ a = qm(A, 1), b = qm(B, 1), c = qm(C, 1); if (ta) a = qt(a); if (tb) b = qt(b);
        close_ext(op, qm(C, 0), qcomb(be, c, al, qmul(a, b)), qcomb(fabs(be), qabsm(c), fabs(al), qmul(qabsm(a), qabsm(b))), cn(k));
    };
}
void x_mult_sym(DOp &op, const Layout &l, int maxd) {
    int m = gen_dim("m", maxd), n = gen_dim("n", maxd), flags = uplo();
    bool right = PF("right", .5), tb = PF("tb", .3);
    flags |= (right ? ARMAS_RIGHT : ARMAS_LEFT) | (tb ? ARMAS_TRANSB : 0);
    double al = gen_scalar("alpha"), be = gen_scalar("beta"); int d = right ? n : m;
    Operand &A = op.mk("A", d, d, l, false), &B = op.mk("B", tb ? n : m, tb ? m : n, l, false), &C = op.mk("C", m, n, l, true);
    fill_symm(A, d, flags);
    auto bt = [&](int i, int j) -> double & { return tb ? B.at(j, i) : B.at(i, j); };
    for (int k = 0; k < d; k++) for (int j = 0; j < (right ? m : n); j++) {
        double &e = right ? bt(j, k) : bt(k, j);
        e = k % 2 ? jit(right ? bt(j, k - 1) : bt(k - 1, j)) : rnd();
    }
    auto prod = [right](const MQ &a, const MQ &b) { return right ? qmul(b, a) : qmul(a, b); };
    MQ b = qm(B, 0); if (tb) b = qt(b);
    fill_target([&](int i, int j) -> double & { return C.at(i, j); }, prod(qsym(qm(A, 0), flags & ARMAS_UPPER), b), al, be, "target");
    xdesc(op, m, n, d, flags, al, be);
    op.call = [&A, &B, &C, al, be, flags](armas_conf_t *cf) { return armas_ext_mult_sym(be, &C.m, al, &A.m, &B.m, flags, cf); };
    op.verify = [&op, &A, &B, &C, al, be, flags, tb, d, prod](int) {
        MQ a = qsym(qm(A, 1), flags & ARMAS_UPPER), b = qm(B, 1), c = qm(C, 1); if (tb) b = qt(b);
        close_ext(op, qm(C, 0), qcomb(be, c, al, prod(a, b)), qcomb(fabs(be), qabsm(c), fabs(al), prod(qabsm(a), qabsm(b))), cn(d));
    };
}

struct { const char *name; void (*gen)(DOp &, const Layout &, int); } xops[] = {
    {"ext_adot", x_adot}, {"ext_sum", x_sum}, {"ext_axpby", x_axpby}, {"ext_mvmult", x_mvmult}, {"ext_mvmult_sym", x_mvmult_sym}, {"ext_mvmult_trm", x_mvmult_trm}, {"ext_mvsolve_trm", x_mvsolve_trm},
    {"ext_mvupdate", x_mvupdate}, {"ext_mvupdate_sym", x_mvupdate_sym}, {"ext_mvupdate2_sym", x_mvupdate2_sym}, {"ext_mult", x_mult}, {"ext_mult_sym", x_mult_sym}, {"ext_mult_trm", x_mult_trm}, {"ext_solve_trm", x_solve_trm},
};
void ext_result(int maxd) {
    op_result([&](DOp &op, const Layout &l) {
        const char *only = getenv("SIM_OP");   // development aid
        std::vector<int> c; for (int i = 0; i < (int)(sizeof xops / sizeof *xops); i++) if (!only || !strcmp(only, xops[i].name)) c.push_back(i);
        auto &x = xops[c[P("op", 0, (int)c.size() - 1)]];
        op.name = x.name;
        gen_level();
        x.gen(op, l, maxd);
        op.save();
    }, maxd, true);
}
}
SCENARIO(C17, results, 3, FAST) { ext_result(40); }
SCENARIO(C17, results_large, 1, FAST) { ext_result(90); }
SCENARIO(C17, results_instr, 1, INSTR) { ext_result(14); }
