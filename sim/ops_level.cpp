// Rotations, sorting, scalar and element-wise helpers of the operation table (group G_LEVEL).
#include "ops.h"
#include <algorithm>
#include <stdarg.h>
using namespace sim;
extern "C" int armas_pivot_sort(armas_dense_t *, armas_pivot_t *, int);   // exported, not declared in a public header
extern "C" double armas_bdsvd2x2(double *, double *, double, double, double);
extern "C" void armas_bdsvd2x2_vec(double *, double *, double *, double *, double *, double *, double, double, double);
extern "C" void armas_sym_eigen2x2(double *, double *, double, double, double);
extern "C" void armas_sym_eigen2x2vec(double *, double *, double *, double *, double, double, double);
extern "C" int armas_house_vec(armas_dense_t *, armas_dense_t *, int, armas_conf_t *);
extern "C" int armas_pivot_index(armas_dense_t *, armas_conf_t *);

namespace {
typedef __float128 Q;
Q qabs(Q x) { return x < 0 ? -x : x; }
Q qsqrt(Q x) { if (x <= 0) return 0; int e; frexpl((LD)x, &e); Q s = sqrtl((LD)x); for (int k = 0; k < 3; k++) s = (s + x / s) / 2; return s; }
const Q QU = 0.5 * DBL_EPSILON;
double rnd() { return 2 * wrng.unit() - 1; }
int mini(int a, int b) { return a < b ? a : b; }
void desc(DOp &op, const char *f, ...) {
    char b[240]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    op.desc = op.name + " " + b;
}
void gen_rot(double &c, double &s) {
    int k = P("rot", 0, 6); double t = 6.4 * wrng.unit();
    c = cos(t); s = sin(t);
    if (k == 0) { c = 1; s = 0; }
    if (k == 1) { c = 0; s = 1; }
    if (k == 2) { c = 0; s = -1; }
    if (k == 3) { c = -1; s = 0; }
    if (k == 4) { c = 1; s = ldexp(rnd(), -40); }
}
void rot_rows(Mat &a, int r1, int r2, int c0, int nc, LD c, LD s) {
    for (int j = c0; j < c0 + nc; j++) { LD x = a(r1, j), y = a(r2, j); a(r1, j) = c * x + s * y; a(r2, j) = c * y - s * x; }
}
// one rotation of two rows (columns); more columns than there are may be asked for
void g_gvone(DOp &op, const Layout &l, int maxd) {
    bool right = PF("right", .5); int m = gen_dim("m", maxd), n = gen_dim("n", maxd), d = right ? n : m, o = right ? m : n;
    int r1 = wrng.below(d), r2 = wrng.below(d), from = PF("whole", .4) ? 0 : (int)wrng.below(o + 2), cnt = P("cnt", 0, 3);
    int num = cnt == 0 ? 0 : cnt == 1 ? (int)wrng.below(o + 1) : cnt == 2 ? o : o + 1 + (int)wrng.below(5);
    double c, s; gen_rot(c, s);
    op.name = right ? "gvright" : "gvleft";
    Operand &A = op.mk("A", m, n, l, true);
    desc(op, "%dx%d %d,%d from %d count %d c=%g s=%g", m, n, r1, r2, from, num, c, s);
    op.call = [=, &A](armas_conf_t *) { if (right) armas_gvright(&A.m, c, s, r1, r2, from, num); else armas_gvleft(&A.m, c, s, r1, r2, from, num); return 0; };
    op.verify = [=, &A, &op](int) {
        Mat a = A.saved(), g = A.mat(); if (right) { a = tr(a); g = tr(g); }
        Mat w = a, sc = absm(a); int k = mini(num, o - from); if (k < 0) k = 0;
        if (r1 == r2) { for (int j = from; j < from + k; j++) w(r1, j) *= c; }
        else {
            rot_rows(w, r1, r2, from, k, c, s);
            for (int j = from; j < from + k; j++) sc(r1, j) = sc(r2, j) = fabsl(a(r1, j)) + fabsl(a(r2, j));
        }
        // elements that do not take part stay as they were
        for (int j = 0; j < o; j++) for (int i = 0; i < d; i++) if ((i != r1 && i != r2) || j < from || j >= from + k) sc(i, j) = 0;
        check_close(op.name.c_str(), op.desc.c_str(), g, w, sc, 4);
    };
}
// sequence of rotations in neighbouring planes
void g_gvupdate(DOp &op, const Layout &l, int maxd) {
    bool left = PF("left", .5), back = PF("back", .5); int m = gen_dim("m", maxd), n = gen_dim("n", maxd), d = left ? m : n;
    int start = PF("zero", .4) ? 0 : (int)wrng.below(d), len = P("len", 0, 3), room = d - start - 1;
    int nrot = len == 0 ? 0 : len == 1 ? (int)wrng.below(room + 1) : len == 2 ? room : room + 1 + (int)wrng.below(3);
    int flags = (left ? ARMAS_LEFT : ARMAS_RIGHT) | (back ? ARMAS_BACKWARD : PF("fwd", .5) ? ARMAS_FORWARD : 0);
    Operand &A = op.mk("A", m, n, l, true), &C = op.mkv("C", nrot ? nrot : 1, l, false, 1), &S = op.mkv("S", nrot ? nrot : 1, l, false, 1);
    for (int k = 0; k < nrot; k++) { double t = 6.4 * wrng.unit(); bool id = wrng.below(4) == 0; vat(C, k) = id ? 1 : cos(t); vat(S, k) = id ? 0 : sin(t); }
    desc(op, "%dx%d start %d nrot %d %s %s", m, n, start, nrot, left ? "left" : "right", back ? "backward" : "forward");
    op.pos_ok = true;
    op.call = [=, &A, &C, &S](armas_conf_t *) { return armas_gvupdate(&A.m, start, &C.m, &S.m, nrot, flags); };
    op.verify = [=, &A, &C, &S, &op](int rc) {
        int k = mini(nrot, room);
        if (rc != k) violation("wrong-result", "gvupdate", "%s returned %d, %d rotations fit", op.desc.c_str(), rc, k);
        Mat a = A.saved(), g = A.mat(); if (!left) { a = tr(a); g = tr(g); }
        Mat w = a, sc(a.r, a.c);
        for (int t = 0; t < k; t++) { int q = back ? k - 1 - t : t; rot_rows(w, start + q, start + q + 1, 0, w.c, vat(C, q), vat(S, q)); }
        for (int j = 0; j < a.c; j++) { LD nn = 0; for (int i = start; i <= start + k && i < d; i++) nn += a(i, j) * a(i, j); for (int i = 0; i < d; i++) sc(i, j) = k && i >= start && i <= start + k ? sqrtl(nn) : 0; }
        check_close("gvupdate", op.desc.c_str(), g, w, sc, 4.0L * (k + 2));
    };
}
void g_gvrot_vec(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", 2 * maxd); double c, s; gen_rot(c, s);
    Operand &x = op.mkv("x", n, l, true, 1), &y = op.mkv("y", n, l, true, 1);
    desc(op, "%d c=%g s=%g", n, c, s);
    auto x0 = std::make_shared<Mat>(vmat(x)), y0 = std::make_shared<Mat>(vmat(y));
    op.call = [&x, &y, c, s](armas_conf_t *) { return armas_gvrot_vec(&x.m, &y.m, c, s); };
    op.verify = [&x, &y, c, s, &op, x0, y0](int) {
        Mat sc = add(absm(*x0), absm(*y0));
        check_close("gvrot_vec", op.desc.c_str(), vmat(x), add(scaled(*x0, c), *y0, s), sc, 4);
        check_close("gvrot_vec", op.desc.c_str(), vmat(y), add(scaled(*y0, c), *x0, -s), sc, 4);
    };
}
double wide(int range) { return ldexp(0.5 + 0.5 * wrng.unit(), (int)wrng.below(2 * range + 1) - range) * (wrng.below(2) ? 1 : -1); }
// three numbers of very different or nearly equal size, some of them zero
void triple(double *v, int n, int range) {
    int k = P("triple", 0, 4);
    double b = wide(range);
    for (int i = 0; i < n; i++) {
        v[i] = k == 0 ? rnd() : k == 1 ? wide(range) : k == 2 ? b * (1 + ldexp(rnd(), -30)) * (wrng.below(2) ? 1 : -1) : k == 3 ? (double)(int)(wrng.below(9)) - 4 : b * ldexp(rnd(), -(int)wrng.below(60));
        if (wrng.below(9) == 0) v[i] = 0;
    }
}
// functions of a few numbers: inputs in x, results in y, a batch per call
template <int N, int M> void scalar_op(DOp &op, const Layout &l, int batch, const std::function<void(double *)> &gen, void (*f)(const double *, double *), const std::function<void(const double *, const double *)> &chk) {
    Operand &x = op.mk("x", N, batch, l, false), &y = op.mk("y", M, batch, l, true);
    for (int k = 0; k < batch; k++) { double v[N]; gen(v); for (int i = 0; i < N; i++) x.at(i, k) = v[i]; }
    desc(op, "batch %d", batch);
    op.call = [&x, &y, batch, f](armas_conf_t *) { for (int k = 0; k < batch; k++) f(&x.at(0, k), &y.at(0, k)); return 0; };
    op.verify = [&x, &y, batch, chk](int) { for (int k = 0; k < batch; k++) chk(&x.at(0, k), &y.at(0, k)); checked(); };
}
#define BAD(site, ...) violation("wrong-result", site, __VA_ARGS__)
bool near(Q got, Q want, Q lim) { return qabs(got - want) <= lim + (Q)1e-300; }
void g_gvcompute(DOp &op, const Layout &l, int maxd) {
    scalar_op<2, 3>(op, l, P("batch", 1, 12), [](double *v) { triple(v, 2, 300); }, [](const double *v, double *r) { armas_gvcompute(r, r + 1, r + 2, v[0], v[1]); }, [](const double *v, const double *r) {
        Q a = v[0], b = v[1], c = r[0], s = r[1], n = qsqrt(a * a + b * b);
        if (!near(c * c + s * s, 1, 8 * QU) || !near(c * a + s * b, r[2], 8 * QU * n) || !near(c * b - s * a, 0, 8 * QU * n) || !near(qabs(r[2]), n, 8 * QU * n))
            BAD("gvcompute", "rotation of (%.17g, %.17g) is c=%.17g s=%.17g r=%.17g", v[0], v[1], r[0], r[1], r[2]);
    });
}
void g_gvrotate(DOp &op, const Layout &l, int maxd) {
    scalar_op<4, 2>(op, l, P("batch", 1, 12), [](double *v) { triple(v, 2, 100); v[2] = rnd(); v[3] = rnd(); }, [](const double *v, double *r) { armas_gvrotate(r, r + 1, v[2], v[3], v[0], v[1]); }, [](const double *v, const double *r) {
        Q a = v[0], b = v[1], c = v[2], s = v[3], n = qabs(a * c) + qabs(b * s) + qabs(a * s) + qabs(b * c);
        if (!near(r[0], c * a + s * b, 4 * QU * n) || !near(r[1], c * b - s * a, 4 * QU * n)) BAD("gvrotate", "(%.17g,%.17g) rotated by %.17g,%.17g is (%.17g,%.17g)", v[0], v[1], v[2], v[3], r[0], r[1]);
    });
}
// coefficients whose discriminant b*b - a*c nearly vanishes
void quad(double *v) {
    int k = P("quad", 0, 4);
    triple(v, 3, 60);
    if (v[0] == 0) v[0] = wide(60);
    if (k >= 3) { v[1] = wide(60); v[0] = wide(60); v[2] = v[1] / v[0] * v[1]; for (int t = (int)wrng.below(4); t > 0; t--) v[2] = nextafter(v[2], k == 3 ? 0 : 2 * v[2]); }
    if (k == 2) { double p = 1 + (int)wrng.below(1 << 26), q = p + (int)wrng.below(4); v[0] = 1 + (int)wrng.below(5); v[1] = p + q; v[1] = v[0] * v[1] / 2; v[2] = v[0] * p * q; }
}
void g_discriminant(DOp &op, const Layout &l, int maxd) {
    scalar_op<3, 1>(op, l, P("batch", 1, 12), quad, [](const double *v, double *r) { armas_discriminant(r, v[0], v[1], v[2]); }, [](const double *v, const double *r) {
        Q p = (Q)v[1] * v[1], q = (Q)v[0] * v[2], d = p - q;
        if (!near(r[0], d, 6 * QU * qabs(d) + 16 * QU * QU * (p + qabs(q)))) BAD("discriminant", "b*b-a*c for a=%.17g b=%.17g c=%.17g is %.17g, expected %.17g", v[0], v[1], v[2], r[0], (double)d);
    });
}
void g_qdroots(DOp &op, const Layout &l, int maxd) {
    scalar_op<3, 3>(op, l, P("batch", 1, 12), quad, [](const double *v, double *r) { r[2] = armas_qdroots(r, r + 1, v[0], v[1], v[2]); }, [](const double *v, const double *r) {
        Q a = v[0], b = v[1], c = v[2], p = b * b, d = p - a * c, lost = 32 * QU * QU * (p + qabs(a * c)), s = qsqrt(qabs(d)), ds = s > 0 ? lost / s + 8 * QU * s : qsqrt(lost), e = ds / qabs(a) + 16 * QU * (s + qabs(b)) / qabs(a);
        if (qabs(d) > lost && (r[2] != 0) != (d < 0)) BAD("qdroots", "roots for a=%.17g b=%.17g c=%.17g reported as %s", v[0], v[1], v[2], r[2] ? "complex" : "real");
        if (r[2]) {
            if (!near(r[0], b / a, 4 * QU * qabs(b / a)) || !near(qabs(r[1]), s / qabs(a), e)) BAD("qdroots", "complex roots for a=%.17g b=%.17g c=%.17g are %.17g, %.17g", v[0], v[1], v[2], r[0], r[1]);
            return;
        }
        if (d < 0) s = 0;
        Q x1 = (b < 0 ? b - s : b + s) / a, w1 = r[0], x2 = x1 == 0 ? (Q)0 : c / (b < 0 ? b - s : b + s);
        bool sign_free = b == 0;   // +-sqrt(d)/a: either first
        if (sign_free && (w1 < 0) != (x1 < 0)) { x1 = -x1; x2 = -x2; }
        Q e1 = ds / qabs(a) + 16 * QU * qabs(x1), rel = x1 == 0 ? (Q)0 : e1 / qabs(x1);
        if (!near(r[0], x1, e1) || !near(r[1], x2, (rel + 16 * QU) * qabs(x2) + (x1 == 0 ? ds / qabs(a) : (Q)0)))
            BAD("qdroots", "roots for a=%.17g b=%.17g c=%.17g are %.17g, %.17g, expected %.17g, %.17g", v[0], v[1], v[2], r[0], r[1], (double)x1, (double)x2);
    });
}
void g_eigen2x2(DOp &op, const Layout &l, int maxd) {
    bool vec = PF("vec", .6); if (vec) op.name = "sym_eigen2x2vec";
    auto chk = [vec](const double *v, const double *r) {
        Q a = v[0], b = v[1], c = v[2], nn = qsqrt(a * a + 2 * b * b + c * c), z1 = r[0], z2 = r[1], lim = 16 * QU * nn;
        if (!near(z1 + z2, a + c, lim) || !near(z1 * z1 + z2 * z2, nn * nn, lim * nn) || qabs(z1) < qabs(z2) * (1 - 8 * QU)) BAD("sym_eigen2x2", "eigenvalues of [%.17g %.17g %.17g] are %.17g, %.17g", v[0], v[1], v[2], r[0], r[1]);
        if (!vec) return;
        Q x = r[2], y = r[3];
        if (!near(x * x + y * y, 1, 16 * QU) || !near(a * x + b * y, z1 * x, lim) || !near(b * x + c * y, z1 * y, lim)) BAD("sym_eigen2x2vec", "vector of %.17g of [%.17g %.17g %.17g] is (%.17g,%.17g)", r[0], v[0], v[1], v[2], r[2], r[3]);
    };
    scalar_op<3, 4>(op, l, P("batch", 1, 12), [](double *v) { triple(v, 3, 200); },
        vec ? +[](const double *v, double *r) { armas_sym_eigen2x2vec(r, r + 1, r + 2, r + 3, v[0], v[1], v[2]); } : +[](const double *v, double *r) { armas_sym_eigen2x2(r, r + 1, v[0], v[1], v[2]); }, chk);
}
void sv2x2(const double *v, Q &smin, Q &smax) {
    Q f = qabs(v[0]), g = qabs(v[1]), h = qabs(v[2]), p = qsqrt(g * g + (f + h) * (f + h)), m = qsqrt(g * g + (f - h) * (f - h));
    smax = (p + m) / 2; smin = smax == 0 ? (Q)0 : f * h / smax;
}
void g_bdsvd2x2(DOp &op, const Layout &l, int maxd) {
    scalar_op<3, 3>(op, l, P("batch", 1, 12), [](double *v) { triple(v, 3, 200); }, [](const double *v, double *r) { r[2] = armas_bdsvd2x2(r, r + 1, v[0], v[1], v[2]); }, [](const double *v, const double *r) {
        Q lo, hi; sv2x2(v, lo, hi);
        if (!near(r[0], lo, 16 * QU * lo) || !near(r[1], hi, 16 * QU * hi) || r[2] != r[0]) BAD("bdsvd2x2", "singular values of [%.17g %.17g; 0 %.17g] are %.17g, %.17g (returned %.17g), expected %.17g, %.17g", v[0], v[1], v[2], r[0], r[1], r[2], (double)lo, (double)hi);
    });
}
void g_bdsvd2x2_vec(DOp &op, const Layout &l, int maxd) {
    scalar_op<3, 6>(op, l, P("batch", 1, 12), [](double *v) { triple(v, 3, 200); }, [](const double *v, double *r) { armas_bdsvd2x2_vec(r, r + 1, r + 2, r + 3, r + 4, r + 5, v[0], v[1], v[2]); }, [](const double *v, const double *r) {
        Q lo, hi, f = v[0], g = v[1], h = v[2], cl = r[2], sl = r[3], cr = r[4], sr = r[5]; sv2x2(v, lo, hi);
        Q lim = 32 * QU * hi;
        Q a = cl * f, b = cl * g + sl * h, c = -sl * f, d = -sl * g + cl * h;   // L B
        if (!near(qabs(r[0]), lo, 32 * QU * lo) || !near(qabs(r[1]), hi, 32 * QU * hi) || !near(cl * cl + sl * sl, 1, 32 * QU) || !near(cr * cr + sr * sr, 1, 32 * QU)
            || !near(a * cr + b * sr, r[1], lim) || !near(-a * sr + b * cr, 0, lim) || !near(c * cr + d * sr, 0, lim) || !near(-c * sr + d * cr, r[0], lim))
            BAD("bdsvd2x2_vec", "decomposition of [%.17g %.17g; 0 %.17g] is smin=%.17g smax=%.17g left (%.17g,%.17g) right (%.17g,%.17g)", v[0], v[1], v[2], r[0], r[1], r[2], r[3], r[4], r[5]);
    });
}
// values in every kind of order
void sort_fill(Operand &x, int n) {
    int k = P("order", 0, 6);
    for (int i = 0; i < n; i++) vat(x, i) = k == 0 ? rnd() : k == 1 ? (double)((int)wrng.below(5) - 2) : k == 2 ? i - n / 2.0 : k == 3 ? n / 2.0 - i : k == 4 ? 3.25 : k == 5 ? (i < n / 2 ? i : n - i) : i % 2 ? -i : i;
    if (k == 2 && n > 2) std::swap(vat(x, wrng.below(n)), vat(x, wrng.below(n)));
}
std::vector<double> sorted(const Mat &a) { std::vector<double> v(a.v.begin(), a.v.end()); std::sort(v.begin(), v.end()); return v; }
template <int K> void g_sort(DOp &op, const Layout &l, int maxd) {   // 0 sort, 1 abs_sort, 2 qsort
    int n = gen_dim("n", 2 * maxd), dir = PC("dir", {1, -1, 5, -7});
    Operand &x = op.mkv("x", n, l, true, 1);
    sort_fill(x, n);
    desc(op, "%d direction %d", n, dir);
    op.call = [&x, dir](armas_conf_t *) { if (K == 2) return armas_qsort_vec(&x.m, dir); if (K) armas_abs_sort_vec(&x.m, dir); else armas_sort_vec(&x.m, dir); return 0; };
    auto x0 = std::make_shared<Mat>(vmat(x));
    op.verify = [&x, &op, n, dir, x0](int) {
        Mat a = vmat(x);
        for (int i = 1; i < n; i++) { LD p = K == 1 ? fabsl(a(i - 1, 0)) : a(i - 1, 0), q = K == 1 ? fabsl(a(i, 0)) : a(i, 0); if (dir > 0 ? p > q : p < q) BAD(op.name.c_str(), "%s: elements %d and %d are out of order (%g, %g)", op.desc.c_str(), i - 1, i, (double)a(i - 1, 0), (double)a(i, 0)); }
        if (sorted(a) != sorted(*x0)) BAD(op.name.c_str(), "%s: the sorted vector does not have the elements of the given one", op.desc.c_str());
        checked();
    };
}
void g_sort_eigenvec(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", mini(maxd, 60)), dir = PC("dir", {1, -1}), with = P("with", 0, 7), r = P("r", 1, 4), ck = P("ckind", 0, 2);
    Operand &d = op.mkv("D", n, l, true, 1);
    Operand *U = with & 1 ? &op.mk("U", r, n, l, true) : 0, *V = with & 2 ? &op.mk("V", n, r, l, true) : 0, *C = with & 4 ? (ck ? &op.mk("C", ck == 1 ? 1 : 3, n, l, true) : &op.mk("C", n, 1, l, true)) : 0;
    if (C && n == 1 && ck == 2) C = 0, with &= 3;   // a column and a vector of one value cannot be told apart
    sort_fill(d, n);
    auto tag = [](int k, int i) { return 100.0 * k + i; };
    if (U) U->fill([&](int i, int j) { return tag(j, i); });
    if (V) V->fill([&](int i, int j) { return tag(i, j); });
    if (C) C->fill([&](int i, int j) { return ck ? tag(j, i) : tag(i, j); });
    desc(op, "%d direction %d%s%s%s", n, dir, U ? " U" : "", V ? " V" : "", C ? " C" : "");
    op.call = [&d, U, V, C, dir](armas_conf_t *) { return armas_sort_eigenvec(&d.m, U ? &U->m : 0, V ? &V->m : 0, C ? &C->m : 0, dir); };
    auto d0 = std::make_shared<Mat>(vmat(d));
    op.verify = [&d, U, V, C, &op, n, r, ck, dir, d0, tag](int) {
        Mat a = vmat(d); const char *ds = op.desc.c_str();
        for (int i = 1; i < n; i++) if (dir > 0 ? a(i - 1, 0) > a(i, 0) : a(i - 1, 0) < a(i, 0)) BAD("sort_eigenvec", "%s: values %d and %d are out of order", ds, i - 1, i);
        if (sorted(a) != sorted(*d0)) BAD("sort_eigenvec", "%s: values are lost", ds);
        std::vector<int> used(n, 0);
        for (int k = 0; k < n && (U || V || C); k++) {
            double t = U ? U->at(0, k) : V ? V->at(k, 0) : ck ? C->at(0, k) : C->at(k, 0);
            int p = (int)(t / 100);
            if (!(t >= 0) || p >= n || used[p]++ || (*d0)(p, 0) != a(k, 0)) BAD("sort_eigenvec", "%s: vector %d at place %d does not belong to the value there", ds, p, k);
            if (U) for (int i = 0; i < r; i++) if (U->at(i, k) != tag(p, i)) BAD("sort_eigenvec", "%s: column %d of U is a mixture", ds, k);
            if (V) for (int i = 0; i < r; i++) if (V->at(k, i) != tag(p, i)) BAD("sort_eigenvec", "%s: row %d of V did not move along", ds, k);
            if (C) for (int i = 0; i < (ck == 2 ? 3 : 1); i++) if ((ck ? C->at(i, k) : C->at(k, i)) != tag(p, i)) BAD("sort_eigenvec", "%s: C did not move along at %d", ds, k);
        }
        checked();
    };
}
void g_pivot_sort(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", 2 * maxd), dir = PC("dir", {1, -1});
    Operand &x = op.mkv("x", n, l, false, 1); sort_fill(x, n);
    Piv &p = op.mkp("P", n, true);
    desc(op, "%d direction %d", n, dir);
    op.call = [&x, &p, dir](armas_conf_t *) { return armas_pivot_sort(&x.m, &p.p, dir); };
    op.verify = [&x, &p, &op, n, dir](int) {
        std::vector<int> used(n, 0);
        for (int k = 0; k < n; k++) {
            int q = p.idx[k] - 1;
            if (q < 0 || q >= n || used[q]++) BAD("pivot_sort", "%s: entry %d is %d", op.desc.c_str(), k, q + 1);
            if (k) { double a = fabs(vat(x, p.idx[k - 1] - 1)), b = fabs(vat(x, q)); if (dir > 0 ? a > b : a < b) BAD("pivot_sort", "%s: entries %d and %d are out of order", op.desc.c_str(), k - 1, k); }
        }
        checked();
    };
}
void g_pivot_index(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", 2 * maxd);
    Operand &x = op.mkv("x", n, l, false, 1); sort_fill(x, n);
    auto r = std::make_shared<double>(0.0); op.scal.push_back(r);
    desc(op, "%d", n);
    op.call = [&x, r](armas_conf_t *cf) { *r = armas_pivot_index(&x.m, cf); return 0; };
    op.verify = [&x, &op, r, n](int) {
        double m = 0; for (int i = 0; i < n; i++) m = fmax(m, fabs(vat(x, i)));
        if (!(*r >= 1 && *r <= n) || fabs(vat(x, (int)*r - 1)) != m) BAD("pivot_index", "%s: %g is not the index of the largest element", op.desc.c_str(), *r);
        checked();
    };
}
void g_scale_to(DOp &op, const Layout &l, int maxd) {
    int m = gen_dim("m", maxd), n = gen_dim("n", maxd), flags = PC("part", {0, 0, ARMAS_LOWER, ARMAS_UPPER});
    double to = wide(PC("range", {10, 500, 1000})), from = to * wide(20);
    if (PF("far", .3)) { from = ldexp(1 + wrng.unit(), 600 - (int)wrng.below(900)); to = from > 1 ? from * ldexp(1 + wrng.unit(), -900) : from * ldexp(1 + wrng.unit(), 900); }
    if (flags) n = m;
    Operand &A = op.mk("A", m, n, l, true);
    if (flags & ARMAS_LOWER) op.keep.push_back({&A, ARMAS_UPPER});
    if (flags & ARMAS_UPPER) op.keep.push_back({&A, ARMAS_LOWER});
    desc(op, "%dx%d from %g to %g part %x", m, n, from, to, flags);
    op.call = [&A, from, to, flags](armas_conf_t *cf) { return armas_scale_to(&A.m, from, to, flags, cf); };
    op.verify = [&A, from, to, flags, &op](int) {
        Mat a = A.saved(), g = A.mat(), w = scaled(a, (LD)to / (LD)from);
        if (flags) { w = flags & ARMAS_LOWER ? tril(w) : triu(w); g = flags & ARMAS_LOWER ? tril(g) : triu(g); }
        check_close("scale_to", op.desc.c_str(), g, w, absm(w), 8);
    };
}
void g_intolerance(DOp &op, const Layout &l, int maxd) {
    int m = gen_dim("m", maxd), n = gen_dim("n", maxd), kind = P("differ", 0, 4); bool all = PF("allclose", .4);
    double at = all ? 1e-8 : ldexp(wrng.unit() + .1, -(int)wrng.below(30)), rt = all ? 1.0000000000000001e-05 : ldexp(wrng.unit() + .1, -(int)wrng.below(30));
    op.name = all ? "allclose" : "intolerance";
    if (kind == 4 && m == 1) m = 2;
    Operand &A = op.mk("A", m, n, l, false), &B = op.mk("B", kind == 4 ? m - 1 : m, n, l, false);
    auto r = std::make_shared<double>(0.0); op.scal.push_back(r);
    int pi = wrng.below(m - (kind == 4)), pj = wrng.below(n), want = 1;
    B.fill([&](int i, int j) { double b = A.at(i, j); return b + (kind == 0 ? 0 : .9) * rnd() * (at + rt * fabs(b)) / (1 + rt); });
    if (kind == 4) want = 0;
    else if (kind >= 2) {   // one element differs more (kind 2) or nearly too much (kind 3)
        double b = 8 * rnd(), lim = at + rt * fabs(b);
        B.at(pi, pj) = b; A.at(pi, pj) = b + (wrng.below(2) ? 1 : -1) * lim * (kind == 2 ? 1.01 : .99); want = kind == 3;
    }
    desc(op, "%dx%d kind %d tolerances %g %g", m, n, kind, at, rt);
    op.call = [&A, &B, r, all, at, rt](armas_conf_t *) { *r = all ? armas_allclose(&A.m, &B.m) : armas_intolerance(&A.m, &B.m, at, rt); return 0; };
    op.verify = [&op, r, want](int) { if (*r != want) BAD(op.name.c_str(), "%s: result %g, expected %d", op.desc.c_str(), *r, want); checked(); };
}
void g_house_vec(DOp &op, const Layout &l, int maxd) {
    int n = gen_dim("n", 2 * maxd), flags = (PF("nonneg", .4) ? ARMAS_NONNEG : 0) | (PF("unit", .5) ? ARMAS_UNIT : 0), tail = P("tail", 0, 3);
    Operand &x = op.mkv("x", n, l, true, 1), &t = op.mk("tau", 1, 1, l, true);
    if (tail == 0) for (int i = 1; i < n; i++) vat(x, i) = 0;
    if (tail == 1) for (int i = 1; i < n; i++) vat(x, i) *= 0x1p-60;
    desc(op, "%d%s%s", n, flags & ARMAS_NONNEG ? " NONNEG" : "", flags & ARMAS_UNIT ? " UNIT" : "");
    auto x0 = std::make_shared<Mat>(vmat(x));
    op.call = [&x, &t, flags](armas_conf_t *cf) { return armas_house_vec(&x.m, &t.m, flags, cf); };
    op.verify = [&x, &t, &op, n, flags, x0](int) {   // scaled: (I - tau w w^T) x = beta e1, w = (1, v); otherwise (I - 2 v v^T) x = tau e1
        Mat w = vmat(x); LD tau = 2, beta = t.at(0, 0), s = 0; Mat y = *x0;
        if (flags & ARMAS_UNIT) { tau = beta; beta = w(0, 0); w(0, 0) = 1; }
        for (int i = 0; i < n; i++) s += w(i, 0) * y(i, 0);
        for (int i = 0; i < n; i++) y(i, 0) -= tau * s * w(i, 0);
        LD nn = fro(*x0); y(0, 0) -= beta;
        check_norm("house_vec", op.desc.c_str(), fro(y), 8.0L * (n + 8) * EPS * nn);
        if ((flags & ARMAS_NONNEG) && !(beta >= 0)) BAD("house_vec", "%s: diagonal %g is negative", op.desc.c_str(), (double)beta);
        LD ww = 0; for (int i = 0; i < n; i++) ww += w(i, 0) * w(i, 0);
        check_norm("house_vec", (op.desc + " orthogonality").c_str(), fabsl(tau * (tau * ww - 2) * ww), 16.0L * (n + 8) * EPS);
    };
}
}
const OpDef level_defs[] = {
    {"gv", G_LEVEL, g_gvone}, {"gvupdate", G_LEVEL, g_gvupdate}, {"gvrot_vec", G_LEVEL, g_gvrot_vec}, {"gvcompute", G_LEVEL, g_gvcompute}, {"gvrotate", G_LEVEL, g_gvrotate},
    {"discriminant", G_LEVEL, g_discriminant}, {"qdroots", G_LEVEL, g_qdroots}, {"sym_eigen2x2", G_LEVEL, g_eigen2x2}, {"bdsvd2x2", G_LEVEL, g_bdsvd2x2}, {"bdsvd2x2_vec", G_LEVEL, g_bdsvd2x2_vec},
    {"sort_vec", G_LEVEL, g_sort<0>}, {"abs_sort_vec", G_LEVEL, g_sort<1>}, {"qsort_vec", G_LEVEL, g_sort<2>}, {"sort_eigenvec", G_LEVEL, g_sort_eigenvec},
    {"pivot_sort", G_LEVEL, g_pivot_sort}, {"pivot_index", G_LEVEL, g_pivot_index}, {"scale_to", G_LEVEL, g_scale_to}, {"intolerance", G_LEVEL, g_intolerance}, {"house_vec", G_LEVEL, g_house_vec},
};
const int n_level_defs = sizeof level_defs / sizeof level_defs[0];
