// Fortran and CBLAS entry points (group G_COMPAT) with the definitions of the interface standard as model.
#include "ops.h"
#include "compat_decl.h"
#include <stdarg.h>
using namespace sim;

namespace {
// logical r x c matrix, stored by columns or by rows
struct CM {
    Operand *o; bool row;
    Mat view(const Mat &a) const { return row ? tr(a) : a; }
    Mat now() const { return view(o->mat()); }
    Mat before() const { return view(o->saved()); }
    double &at(int i, int j) const { return row ? o->at(j, i) : o->at(i, j); }
    double *p() const { return o->m.elems; }
    int ld() const { return o->m.step; }
    int r() const { return row ? o->m.cols : o->m.rows; }
    int c() const { return row ? o->m.rows : o->m.cols; }
};
CM cm(DOp &op, const char *name, int r, int c, bool row, const Layout &l, bool output) {
    return CM{&op.mk(name, row ? c : r, row ? r : c, l, output), row};
}
// vector with an increment; a negative one means reverse order
struct CV {
    Operand *o; int n, inc;
    int pos(int k) const { return inc < 0 ? n - 1 - k : k; }
    Mat of(const Mat &a) const { Mat v(n, 1); for (int k = 0; k < n; k++) v(k, 0) = a.v[pos(k)]; return v; }
    Mat now() const { return of(o->mat()); }
    Mat before() const { return of(o->saved()); }
    double &at(int k) const { return o->m.cols == 1 ? o->at(pos(k), 0) : o->at(0, pos(k)); }
    double *p() const { return o->m.elems; }
};
CV cv(DOp &op, const char *name, int n, const Layout &l, bool output, bool neg = true) {
    bool stride = n > 1 && PF("stride", .5);
    Operand &o = op.mk(name, stride ? 1 : n, stride ? n : 1, l, output);
    int inc = stride ? o.m.step : 1;
    if (neg && PF("neg", .3)) inc = -inc;
    return CV{&o, n, inc};
}
int dim(const char *n, int maxd) { return PF("empty", .03) ? 0 : gen_dim(n, maxd); }
char upc(bool u) { return PF("lower", .2) ? (u ? 'u' : 'l') : (u ? 'U' : 'L'); }
char trc(bool t) { return !t ? PF("lower", .2) ? 'n' : 'N' : "TTtCc"[P("tr", 0, 4)]; }
char sidec(bool r) { return PF("lower", .2) ? (r ? 'r' : 'l') : (r ? 'R' : 'L'); }
char diagc(bool u) { return PF("lower", .2) ? (u ? 'u' : 'n') : (u ? 'U' : 'N'); }
int ctr(bool t) { return !t ? 111 : PF("conj", .3) ? 113 : 112; }
void poison(const CM &a, bool upper, bool unit) {
    if (PF("poison", .6)) for (int j = 0; j < a.c(); j++) for (int i = 0; i < a.r(); i++) if ((upper ? i > j : i < j) || (unit && i == j)) a.at(i, j) = NAN;
}
void solvable(const CM &a) { int n = a.r(); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) a.at(i, j) = i == j ? (2 + wrng.unit()) * (wrng.below(2) ? 1 : -1) : 2 * (2 * wrng.unit() - 1) / n; }
Mat tri(const Mat &a, bool upper, bool unit) {
    Mat t(a.r, a.c);
    for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) t(i, j) = i == j ? (unit ? 1 : a(i, j)) : (upper ? i < j : i > j) ? a(i, j) : 0;
    return t;
}
void keep(DOp &op, const CM &a, bool upper) { op.keep.push_back({a.o, upper != a.row ? ARMAS_LOWER : ARMAS_UPPER}); }
void dsc(DOp &op, const char *f, ...) {
    char b[240]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    op.desc = op.name + " " + b;
}
const char *api_name[] = {"", " by columns", " by rows"};
void close(DOp &op, const Mat &got, const Mat &want, const Mat &scale, int terms) { check_close(op.name.c_str(), op.desc.c_str(), got, want, scale, 4.0L * (terms + 4)); }
// only one triangle is compared
void close_tri(DOp &op, Mat got, Mat want, Mat scale, bool upper, int terms) {
    close(op, upper ? triu(got) : tril(got), upper ? triu(want) : tril(want), upper ? triu(scale) : tril(scale), terms);
}

void g_gemm(DOp &op, const Layout &l, int maxd) {
    int api = P("api", 0, 2); bool row = api == 2, ta = PF("ta", .5), tb = PF("tb", .5);
    int m = dim("m", maxd), n = dim("n", maxd), k = dim("k", maxd);
    double al = gen_scalar("alpha"), be = gen_scalar("beta");
    CM A = cm(op, "A", ta ? k : m, ta ? m : k, row, l, false), B = cm(op, "B", tb ? n : k, tb ? k : n, row, l, false), C = cm(op, "C", m, n, row, l, true);
    char fa = trc(ta), fb = trc(tb); int ca = ctr(ta), cb = ctr(tb);
    op.name = api ? "cblas_dgemm" : "dgemm_";
    dsc(op, "%dx%dx%d%s %s%s alpha=%g beta=%g", m, n, k, api_name[api], ta ? "T" : "N", tb ? "T" : "N", al, be);
    op.call = [=](armas_conf_t *) mutable {
        int la = A.ld(), lb = B.ld(), lc = C.ld();
        if (api) cblas_dgemm(row ? 101 : 102, ca, cb, m, n, k, al, A.p(), la, B.p(), lb, be, C.p(), lc);
        else dgemm_(&fa, &fb, &m, &n, &k, &al, A.p(), &la, B.p(), &lb, &be, C.p(), &lc);
        return 0;
    };
    op.verify = [=, &op](int) {
        Mat a = A.before(), b = B.before(), c = C.before();
        if (ta) a = tr(a); if (tb) b = tr(b);
        close(op, C.now(), add(scaled(c, be), mul(a, b), al), add(scaled(absm(c), fabs(be)), mul(absm(a), absm(b)), fabs(al)), k);
    };
}
void g_symm(DOp &op, const Layout &l, int maxd) {
    int api = P("api", 0, 2); bool row = api == 2, right = PF("right", .5), up = PF("up", .5);
    int m = dim("m", maxd), n = dim("n", maxd), d = right ? n : m;
    double al = gen_scalar("alpha"), be = gen_scalar("beta");
    CM A = cm(op, "A", d, d, row, l, false), B = cm(op, "B", m, n, row, l, false), C = cm(op, "C", m, n, row, l, true);
    poison(A, up, false);
    char fs = sidec(right), fu = upc(up);
    op.name = api ? "cblas_dsymm" : "dsymm_";
    dsc(op, "%dx%d%s %s %s alpha=%g beta=%g", m, n, api_name[api], right ? "right" : "left", up ? "upper" : "lower", al, be);
    op.call = [=](armas_conf_t *) mutable {
        int la = A.ld(), lb = B.ld(), lc = C.ld();
        if (api) cblas_dsymm(row ? 101 : 102, right ? 142 : 141, up ? 121 : 122, m, n, al, A.p(), la, B.p(), lb, be, C.p(), lc);
        else dsymm_(&fs, &fu, &m, &n, &al, A.p(), &la, B.p(), &lb, &be, C.p(), &lc);
        return 0;
    };
    op.verify = [=, &op](int) {
        Mat a = symm_from(A.before(), up), b = B.before(), c = C.before();
        close(op, C.now(), add(scaled(c, be), right ? mul(b, a) : mul(a, b), al), add(scaled(absm(c), fabs(be)), right ? mul(absm(b), absm(a)) : mul(absm(a), absm(b)), fabs(al)), d);
    };
}
template <bool SOLVE> void g_trxm(DOp &op, const Layout &l, int maxd) {
    int api = P("api", 0, 2); bool row = api == 2, right = PF("right", .5), up = PF("up", .5), t = PF("ta", .5), unit = PF("unit", .4);
    int m = dim("m", maxd), n = dim("n", maxd), d = right ? n : m;
    double al = gen_scalar("alpha");
    CM A = cm(op, "A", d, d, row, l, false), B = cm(op, "B", m, n, row, l, true);
    solvable(A); poison(A, up, unit);
    char fs = sidec(right), fu = upc(up), ft = trc(t), fd = diagc(unit); int ct = ctr(t);
    op.name = SOLVE ? (api ? "cblas_dtrsm" : "dtrsm_") : (api ? "cblas_dtrmm" : "dtrmm_");
    dsc(op, "%dx%d%s %s %s %s%s alpha=%g", m, n, api_name[api], right ? "right" : "left", up ? "upper" : "lower", t ? "T" : "N", unit ? " unit" : "", al);
    op.call = [=](armas_conf_t *) mutable {
        int la = A.ld(), lb = B.ld();
        if (api) (SOLVE ? cblas_dtrsm : cblas_dtrmm)(row ? 101 : 102, right ? 142 : 141, up ? 121 : 122, ct, unit ? 132 : 131, m, n, al, A.p(), la, B.p(), lb);
        else (SOLVE ? dtrsm_ : dtrmm_)(&fs, &fu, &ft, &fd, &m, &n, &al, A.p(), &la, B.p(), &lb);
        return 0;
    };
    op.verify = [=, &op](int) {
        Mat a = tri(A.before(), up, unit), b = B.before(), g = B.now();
        if (t) a = tr(a);
        if (SOLVE) {   // residual
            Mat x = scaled(b, al), p = right ? mul(g, a) : mul(a, g), s = add(absm(x), right ? mul(absm(g), absm(a)) : mul(absm(a), absm(g)));
            if (al == 0) close(op, g, Mat(m, n), Mat(m, n), d);
            else { LD e = 0; for (LD v : s.v) if (v > e) e = v; for (LD &v : s.v) v = e; close(op, p, x, s, 2 * d); }
        } else
            close(op, g, scaled(right ? mul(b, a) : mul(a, b), al), scaled(right ? mul(absm(b), absm(a)) : mul(absm(a), absm(b)), fabs(al)), d);
    };
}
template <int RANK> void g_syrk(DOp &op, const Layout &l, int maxd) {
    bool up = PF("up", .5), t = PF("ta", .5);
    int n = dim("n", maxd), k = dim("k", maxd);
    double al = gen_scalar("alpha"), be = gen_scalar("beta");
    CM A = cm(op, "A", t ? k : n, t ? n : k, false, l, false), B = A, C = cm(op, "C", n, n, false, l, true);
    if (RANK == 2) B = cm(op, "B", t ? k : n, t ? n : k, false, l, false);
    poison(C, up, false); keep(op, C, up);
    char fu = upc(up), ft = trc(t);
    op.name = RANK == 2 ? "dsyr2k_" : "dsyrk_";
    dsc(op, "%d k=%d %s %s alpha=%g beta=%g", n, k, up ? "upper" : "lower", t ? "T" : "N", al, be);
    op.call = [=](armas_conf_t *) mutable {
        int la = A.ld(), lb = B.ld(), lc = C.ld();
        if (RANK == 2) dsyr2k_(&fu, &ft, &n, &k, &al, A.p(), &la, B.p(), &lb, &be, C.p(), &lc);
        else dsyrk_(&fu, &ft, &n, &k, &al, A.p(), &la, &be, C.p(), &lc);
        return 0;
    };
    op.verify = [=, &op](int) {
        Mat a = A.before(), b = B.before(), c = C.before();
        if (t) { a = tr(a); b = tr(b); }
        Mat p = mul(a, tr(b)), s = mul(absm(a), tr(absm(b)));
        if (RANK == 2) { p = add(p, tr(p)); s = add(s, tr(s)); }
        close_tri(op, C.now(), add(scaled(c, be), p, al), add(scaled(absm(c), fabs(be)), s, fabs(al)), up, 2 * k);
    };
}
void g_gemv(DOp &op, const Layout &l, int maxd) {
    bool t = PF("ta", .5);
    int m = gen_dim("m", maxd), n = gen_dim("n", maxd);   // (empty ones: the standard leaves y as it is)
    double al = gen_scalar("alpha"), be = gen_scalar("beta");
    CM A = cm(op, "A", m, n, false, l, false); CV x = cv(op, "x", t ? m : n, l, false), y = cv(op, "y", t ? n : m, l, true);
    char ft = trc(t);
    op.name = "dgemv_";
    dsc(op, "%dx%d %s inc %d,%d alpha=%g beta=%g", m, n, t ? "T" : "N", x.inc, y.inc, al, be);
    op.call = [=](armas_conf_t *) mutable { int la = A.ld(); dgemv_(&ft, &m, &n, &al, A.p(), &la, x.p(), &x.inc, &be, y.p(), &y.inc); return 0; };
    op.verify = [=, &op](int) {
        Mat a = A.before(), v = x.before(), w = y.before();
        if (t) a = tr(a);
        close(op, y.now(), add(scaled(w, be), mul(a, v), al), add(scaled(absm(w), fabs(be)), mul(absm(a), absm(v)), fabs(al)), a.c);
    };
}
void g_symv(DOp &op, const Layout &l, int maxd) {
    bool up = PF("up", .5); int n = dim("n", maxd);
    double al = gen_scalar("alpha"), be = gen_scalar("beta");
    CM A = cm(op, "A", n, n, false, l, false); CV x = cv(op, "x", n, l, false), y = cv(op, "y", n, l, true);
    poison(A, up, false);
    char fu = upc(up);
    op.name = "dsymv_";
    dsc(op, "%d %s inc %d,%d alpha=%g beta=%g", n, up ? "upper" : "lower", x.inc, y.inc, al, be);
    op.call = [=](armas_conf_t *) mutable { int la = A.ld(); dsymv_(&fu, &n, &al, A.p(), &la, x.p(), &x.inc, &be, y.p(), &y.inc); return 0; };
    op.verify = [=, &op](int) {
        Mat a = symm_from(A.before(), up), v = x.before(), w = y.before();
        close(op, y.now(), add(scaled(w, be), mul(a, v), al), add(scaled(absm(w), fabs(be)), mul(absm(a), absm(v)), fabs(al)), n);
    };
}
template <bool SOLVE> void g_trxv(DOp &op, const Layout &l, int maxd) {
    bool up = PF("up", .5), t = PF("ta", .5), unit = PF("unit", .4); int n = dim("n", maxd);
    CM A = cm(op, "A", n, n, false, l, false); CV x = cv(op, "x", n, l, true);
    solvable(A); poison(A, up, unit);
    char fu = upc(up), ft = trc(t), fd = diagc(unit);
    op.name = SOLVE ? "dtrsv_" : "dtrmv_";
    dsc(op, "%d %s %s%s inc %d", n, up ? "upper" : "lower", t ? "T" : "N", unit ? " unit" : "", x.inc);
    op.call = [=](armas_conf_t *) mutable { int la = A.ld(); (SOLVE ? dtrsv_ : dtrmv_)(&fu, &ft, &fd, &n, A.p(), &la, x.p(), &x.inc); return 0; };
    op.verify = [=, &op](int) {
        Mat a = tri(A.before(), up, unit), v = x.before(), g = x.now();
        if (t) a = tr(a);
        if (SOLVE) { Mat s = add(absm(v), mul(absm(a), absm(g))); LD e = maxabs(s); for (LD &q : s.v) q = e; close(op, mul(a, g), v, s, 2 * n); }
        else close(op, g, mul(a, v), mul(absm(a), absm(v)), n);
    };
}
void g_ger(DOp &op, const Layout &l, int maxd) {
    int m = dim("m", maxd), n = dim("n", maxd); double al = gen_scalar("alpha");
    CV x = cv(op, "x", m, l, false), y = cv(op, "y", n, l, false); CM A = cm(op, "A", m, n, false, l, true);
    op.name = "dger_";
    dsc(op, "%dx%d inc %d,%d alpha=%g", m, n, x.inc, y.inc, al);
    op.call = [=](armas_conf_t *) mutable { int la = A.ld(); dger_(&m, &n, &al, x.p(), &x.inc, y.p(), &y.inc, A.p(), &la); return 0; };
    op.verify = [=, &op](int) {
        Mat v = x.before(), w = y.before(), a = A.before();
        close(op, A.now(), add(a, mul(v, tr(w)), al), add(absm(a), mul(absm(v), tr(absm(w))), fabs(al)), 1);
    };
}
template <int RANK> void g_syr(DOp &op, const Layout &l, int maxd) {
    bool up = PF("up", .5); int n = dim("n", maxd); double al = gen_scalar("alpha");
    CV x = cv(op, "x", n, l, false), y = x; if (RANK == 2) y = cv(op, "y", n, l, false);
    CM A = cm(op, "A", n, n, false, l, true);
    poison(A, up, false); keep(op, A, up);
    char fu = upc(up);
    op.name = RANK == 2 ? "dsyr2_" : "dsyr_";
    dsc(op, "%d %s inc %d,%d alpha=%g", n, up ? "upper" : "lower", x.inc, y.inc, al);
    op.call = [=](armas_conf_t *) mutable {
        int la = A.ld();
        if (RANK == 2) dsyr2_(&fu, &n, &al, x.p(), &x.inc, y.p(), &y.inc, A.p(), &la);
        else dsyr_(&fu, &n, &al, x.p(), &x.inc, A.p(), &la);
        return 0;
    };
    op.verify = [=, &op](int) {
        Mat v = x.before(), w = y.before(), a = A.before(), p = mul(v, tr(w)), s = mul(absm(v), tr(absm(w)));
        if (RANK == 2) { p = add(p, tr(p)); s = add(s, tr(s)); }
        close_tri(op, A.now(), add(a, p, al), add(absm(a), s, fabs(al)), up, 2);
    };
}
// copy, swap, axpy, rotation
enum { V_COPY, V_SWAP, V_AXPY, V_ROT };
template <int K> void g_vec2(DOp &op, const Layout &l, int maxd) {
    int n = dim("n", 2 * maxd); double al = gen_scalar("alpha"), th = 6.4 * wrng.unit(), c = cos(th), s = sin(th);
    CV x = cv(op, "x", n, l, K == V_SWAP || K == V_ROT), y = cv(op, "y", n, l, true);
    static const char *nm[] = {"dcopy_", "dswap_", "daxpy_", "drot_"};
    op.name = nm[K];
    dsc(op, "%d inc %d,%d alpha=%g", n, x.inc, y.inc, al);
    op.call = [=](armas_conf_t *) mutable {
        if (K == V_COPY) dcopy_(&n, x.p(), &x.inc, y.p(), &y.inc);
        if (K == V_SWAP) dswap_(&n, x.p(), &x.inc, y.p(), &y.inc);
        if (K == V_AXPY) daxpy_(&n, &al, x.p(), &x.inc, y.p(), &y.inc);
        if (K == V_ROT) drot_(&n, x.p(), &x.inc, y.p(), &y.inc, &c, &s);
        return 0;
    };
    op.verify = [=, &op](int) {
        Mat v = x.before(), w = y.before(), z(n, 1), sc = add(absm(v), absm(w));
        if (K == V_COPY || K == V_SWAP) close(op, y.now(), v, z, 1);
        if (K == V_SWAP) close(op, x.now(), w, z, 1);
        if (K == V_AXPY) close(op, y.now(), add(w, v, al), add(absm(w), absm(v), fabs(al)), 1);
        if (K == V_ROT) { close(op, x.now(), add(scaled(v, c), w, s), sc, 1); close(op, y.now(), add(scaled(w, c), v, -s), sc, 1); }
    };
}
enum { R_DOT, R_NRM2, R_ASUM, R_IAMAX };
template <int K> void g_reduce(DOp &op, const Layout &l, int maxd) {
    int n = dim("n", 2 * maxd);
    CV x = cv(op, "x", n, l, false, K == R_DOT), y = x;
    if (K == R_DOT) y = cv(op, "y", n, l, false);
    bool none = (K == R_ASUM || K == R_IAMAX) && PF("noinc", .1);   // increments that are not positive are defined to give zero
    if (none) x.inc = -(int)wrng.below(3);
    bool ties = PF("ties", .3); if (ties) for (int k = 0; k < n; k++) x.at(k) = (double)((int)wrng.below(3) - 1);
    if (K != R_DOT && !ties && PF("extreme", .25)) {   // near the limits of the number range
        int common = (int)wrng.below(1861) - 930; bool each = PF("each", .5);
        for (int k = 0; k < n; k++) x.at(k) *= ldexp(1.0, each ? (int)wrng.below(1861) - 930 : common);
    }
    static const char *nm[] = {"ddot_", "dnrm2_", "dasum_", "idamax_"};
    op.name = nm[K];
    auto r = std::make_shared<double>(0.0); op.scal.push_back(r);
    dsc(op, "%d inc %d,%d", n, x.inc, y.inc);
    op.call = [=](armas_conf_t *) mutable {
        *r = K == R_DOT ? ddot_(&n, x.p(), &x.inc, y.p(), &y.inc) : K == R_NRM2 ? dnrm2_(&n, x.p(), &x.inc) : K == R_ASUM ? dasum_(&n, x.p(), &x.inc) : idamax_(&n, x.p(), &x.inc);
        return 0;
    };
    op.verify = [=, &op](int) {
        Mat g(1, 1), w(1, 1), s(1, 1); g(0, 0) = *r;
        if (!none) {
            Mat v = x.before();
            if (K == R_DOT) { Mat u = y.before(); for (int k = 0; k < n; k++) { w(0, 0) += v(k, 0) * u(k, 0); s(0, 0) += fabsl(v(k, 0) * u(k, 0)); } }
            if (K == R_NRM2) w(0, 0) = s(0, 0) = fro(v);
            if (K == R_ASUM) { for (LD q : v.v) w(0, 0) += fabsl(q); s = w; }
            if (K == R_IAMAX) { int b = -1; for (int k = 0; k < n; k++) if (b < 0 || fabsl(v(k, 0)) > fabsl(v(b, 0))) b = k; w(0, 0) = b + 1; }   // first of the largest
        }
        close(op, g, w, s, n);
    };
}
void g_scal(DOp &op, const Layout &l, int maxd) {
    int n = dim("n", 2 * maxd); double al = gen_scalar("alpha");
    CV x = cv(op, "x", n, l, true, false);
    bool none = PF("noinc", .1); if (none) x.inc = -(int)wrng.below(3);
    op.name = "dscal_"; dsc(op, "%d inc %d alpha=%g", n, x.inc, al);
    op.call = [=](armas_conf_t *) mutable { dscal_(&n, &al, x.p(), &x.inc); return 0; };
    op.verify = [=, &op](int) {
        Mat v = x.o->saved(); v.c = n ? 1 : 0; v.r = n; Mat g = x.o->mat(); g.c = v.c; g.r = n;
        close(op, g, none ? v : scaled(v, al), none ? Mat(n, 1) : absm(scaled(v, al)), 1);
    };
}
void g_rotg(DOp &op, const Layout &l, int maxd) {
    int cnt = P("batch", 1, 12);
    Operand &x = op.mk("x", 2, cnt, l, false), &y = op.mk("y", 4, cnt, l, true);
    int kind = P("kind", 0, 3);
    for (int j = 0; j < cnt; j++) for (int i = 0; i < 2; i++) {
        double v = 2 * wrng.unit() - 1;
        if (kind == 1) v = ldexp(v, (int)wrng.below(400) - 200);
        if (kind == 2) v = (int)wrng.below(5) - 2;
        if (kind == 3) v = wrng.below(3) ? v : 0;
        x.at(i, j) = v;
    }
    op.name = "drotg_"; dsc(op, "batch %d", cnt);
    op.call = [=, &x, &y](armas_conf_t *) { for (int j = 0; j < cnt; j++) { y.at(0, j) = x.at(0, j); y.at(1, j) = x.at(1, j); drotg_(&y.at(0, j), &y.at(1, j), &y.at(2, j), &y.at(3, j)); } return 0; };
    op.verify = [=, &x, &y](int) {
        for (int j = 0; j < cnt; j++) {
            LD a = x.at(0, j), b = x.at(1, j), r = y.at(0, j), z = y.at(1, j), c = y.at(2, j), s = y.at(3, j), h = hypotl(a, b), e = 16 * EPS;
            LD c1, s1;   // rotation rebuilt from z
            if (z == 1) { c1 = 0; s1 = 1; } else if (fabsl(z) < 1) { s1 = z; c1 = sqrtl((1 - z) * (1 + z)); } else { c1 = 1 / z; s1 = sqrtl((1 - c1) * (1 + c1)); }
            bool zero = a == 0 && b == 0;
            if (zero ? !(c == 1 && s == 0 && r == 0 && z == 0) : !(fabsl(c * a + s * b - r) <= e * h && fabsl(c * b - s * a) <= e * h && fabsl(fabsl(r) - h) <= e * h && fabsl(c - c1) <= 4 * e && fabsl(s - s1) <= 4 * e))
                violation("wrong-result", "drotg_", "rotation of (%.17Lg,%.17Lg): r=%.17Lg z=%.17Lg c=%.17Lg s=%.17Lg", a, b, r, z, c, s);
        }
        checked();
    };
}
}
const OpDef compat_defs[] = {
    {"gemm", G_COMPAT, g_gemm}, {"symm", G_COMPAT, g_symm}, {"trmm", G_COMPAT, g_trxm<false>}, {"trsm", G_COMPAT, g_trxm<true>}, {"syrk", G_COMPAT, g_syrk<1>}, {"syr2k", G_COMPAT, g_syrk<2>},
    {"gemv", G_COMPAT, g_gemv}, {"symv", G_COMPAT, g_symv}, {"trmv", G_COMPAT, g_trxv<false>}, {"trsv", G_COMPAT, g_trxv<true>}, {"ger", G_COMPAT, g_ger}, {"syr", G_COMPAT, g_syr<1>}, {"syr2", G_COMPAT, g_syr<2>},
    {"copy", G_COMPAT, g_vec2<V_COPY>}, {"swap", G_COMPAT, g_vec2<V_SWAP>}, {"axpy", G_COMPAT, g_vec2<V_AXPY>}, {"rot", G_COMPAT, g_vec2<V_ROT>}, {"rotg", G_COMPAT, g_rotg},
    {"dot", G_COMPAT, g_reduce<R_DOT>}, {"nrm2", G_COMPAT, g_reduce<R_NRM2>}, {"asum", G_COMPAT, g_reduce<R_ASUM>}, {"iamax", G_COMPAT, g_reduce<R_IAMAX>}, {"scal", G_COMPAT, g_scal},
};
const int n_compat_defs = sizeof compat_defs / sizeof *compat_defs;
