// C15: histories over matrices, views, pivot vectors, workspaces, cache buffers and accumulators, with failing allocations.
// The inline functions of the headers are called, not inlined: the library's own copies run (instrumented in the instr flavour).
#pragma GCC optimize("no-inline")
#include "ref.h"
#include <algorithm>
using namespace sim;

extern "C" {
armas_cbuf_t *armas_cbuf_new(size_t cmem, size_t l1mem);
void armas_cbuf_free(armas_cbuf_t *cbuf);
}

namespace {
// ------------------------------------------------------------------ faults and garbage
bool o_faults;
bool o_arm(AllocFault &f) {
    bool a = o_faults && PF("arm", .4);
    if (!a) { alloc_fault(0); return false; }
    memset(&f, 0, sizeof f);
    f.only_lib = true; f.only_tid = -1; f.maxsize = ~0ull;
    f.nth = P("nth", 1, 2); f.from = PF("from", .5);
    alloc_fault(&f);
    return true;
}
u64 o_disarm() { u64 n = alloc_failed(); alloc_fault(0); if (n) nontrivial(); return n; }
template <class T> void o_garbage(T *p) {
    int g = (int)wrng.below(3);
    memset((void *)p, g == 0 ? 0 : 0xff, sizeof *p);
    if (g == 2) for (size_t k = 0; k < sizeof *p; k++) ((char *)p)[k] = (char)wrng.below(256);
    if (g) fault_fired(F_DIRTY_MEM);
}
template <class T> T *o_struct() { T *p = (T *)harness_alloc(sizeof(T)); o_garbage(p); return p; }

// ------------------------------------------------------------------ dense matrices
struct Store { std::vector<double> v; double *buf = 0; bool alive = true; };         // buf: memory of the harness (armas_make)
struct DM { armas_dense_t *m = 0; bool heap = false, owner = false, live = false; int st = -1, off = 0, step = 0, r = 0, c = 0; };
struct Dense {
    std::vector<Store> st;
    std::vector<DM> s;
    int maxd;
    double &at(const DM &d, int i, int j) { return st[d.st].v[d.off + (size_t)j * d.step + i]; }
    int size(const DM &d) { return d.r * d.c; }
    bool vec(const DM &d) { return d.r == 1 || d.c == 1; }
    double maxval() { double x = 0; for (auto &q : st) if (q.alive) for (double y : q.v) if (fabs(y) > x) x = fabs(y); return x; }

    void check(const char *site, const char *what) {
        for (size_t k = 0; k < s.size(); k++) {
            DM &d = s[k];
            if (!d.live) continue;
            if (d.m->rows != d.r || d.m->cols != d.c) violation("corrupt-object", site, "%s: matrix %zu is %dx%d, expected %dx%d", what, k, d.m->rows, d.m->cols, d.r, d.c);
            if (armas_size(d.m) != (int64_t)d.r * d.c || (armas_isvector(d.m) != 0) != vec(d)) violation("corrupt-object", site, "%s: size or vector test of matrix %zu is wrong", what, k);
            for (int j = 0; j < d.c; j++) for (int i = 0; i < d.r; i++) {
                double g = armas_get_unsafe(d.m, i, j), w = at(d, i, j);
                if (!(g == w)) violation("wrong-contents", site, "%s: element [%d,%d] of %s %zu (%dx%d) is %.17g, expected %.17g", what, i, j, d.owner ? "matrix" : "view", k, d.r, d.c, g, w);
            }
        }
        for (auto &q : st) if (q.alive && q.buf) for (size_t k = 0; k < q.v.size(); k++)
            if (!(q.buf[k] == q.v[k])) violation("wrong-contents", site, "%s: element %zu of a user's buffer is %.17g, expected %.17g", what, k, q.buf[k], q.v[k]);
        check_heap();
        checked();
    }
    int pick(bool (*ok)(const DM &)) {
        std::vector<int> c;
        for (size_t k = 0; k < s.size(); k++) if (ok(s[k])) c.push_back((int)k);
        return c.empty() ? -1 : c[P("slot", 0, (int)c.size() - 1)];
    }
    // a slot that can be (re)initialised: nothing is owned by it
    int free_slot() {
        int k = pick([](const DM &d) { return !d.owner && !d.heap; });
        if (k >= 0) { o_garbage(s[k].m); s[k].live = false; }
        return k;
    }
    int heap_slot() {
        for (size_t k = 0; k < s.size(); k++) if (!s[k].live && !s[k].heap && !s[k].owner) return (int)k;
        return -1;
    }
    void drop_store(int id) { st[id].alive = false; for (auto &d : s) if (d.live && d.st == id) d.live = false; }
    int new_store(int r, int c) { Store q; q.v.assign((size_t)r * c, 0.0); st.push_back(q); return (int)st.size() - 1; }
};
Dense *D;
int o_calls; double o_param;
double o_gen() { o_calls++; return o_param; }
double o_val(int i, int j) { o_calls++; return o_param + 3 * i + 100 * j; }
double o_neg(double x) { o_calls++; return -x; }
double o_add(double x, void *p) { o_calls++; return x + *(double *)p; }
struct ItCtx { int n, stop; double sum; };
int o_it(double x, void *p) { ItCtx *c = (ItCtx *)p; c->n++; c->sum += x; return c->n == c->stop ? -1 : 0; }

// elements addressed by the flags
bool o_sel(int flags, int i, int j) {
    if (flags & ARMAS_UPPER) return i < j || (i == j && !(flags & ARMAS_UNIT));
    if (flags & ARMAS_LOWER) return i > j || (i == j && !(flags & ARMAS_UNIT));
    return true;
}
int o_flags(const DM &d, bool unit) {
    int k = P("part", 0, 3);
    if (k < 2 || D->vec(d)) return 0;
    int f = k == 2 ? ARMAS_UPPER : ARMAS_LOWER;
    if (unit && PF("unit", .4)) f |= ARMAS_UNIT;
    return f;
}
const char *o_fname(int f) { return f & ARMAS_UPPER ? f & ARMAS_UNIT ? " UPPER|UNIT" : " UPPER" : f & ARMAS_LOWER ? f & ARMAS_UNIT ? " LOWER|UNIT" : " LOWER" : ""; }
bool any_live(const DM &d) { return d.live && d.r > 0 && d.c > 0; }
bool any_obj(const DM &d) { return d.live; }

void d_create() {
    AllocFault f; int r = P("rows", 0, D->maxd), c = P("cols", 0, D->maxd);
    bool huge = P("huge", 0, 19) == 0;
    if (huge) { r = 50000; c = 50000; }
    bool heap = PF("alloc", .5);
    if (heap && (!r || !c)) { r = r ? r : 1; c = c ? c : 1; }
    int k = heap ? D->heap_slot() : D->free_slot();
    if (k < 0) return;
    DM &d = D->s[k]; d.live = d.owner = false;
    char what[80]; snprintf(what, sizeof what, "%s(%d,%d)", heap ? "armas_alloc" : "armas_init", r, c);
    const char *site = heap ? "armas_alloc" : "armas_init";
    o_arm(f);
    armas_dense_t *m = heap ? armas_alloc(r, c) : armas_init(d.m, r, c);
    u64 nf = o_disarm();
    emit(m != 0);
    if (!m) {
        if (!nf && !huge) violation("false-failure", site, "%s failed without a fault", what);
        if (!heap) {
            if (armas_size(d.m) != 0 || d.m->elems || d.m->__data) violation("corrupt-object", site, "%s: the failed matrix is not empty", what);
            armas_release(d.m); armas_release(d.m);
        }
        probe("create-failed");
        D->check(site, what);
        return;
    }
    if (nf) violation("false-success", site, "%s succeeded although its memory could not be allocated", what);
    if (huge) violation("false-success", site, "%s succeeded, its elements cannot be indexed", what);
    if (!heap && m != d.m) violation("error-return", site, "%s returned another matrix", what);
    if (heap) { d.m = m; d.heap = true; }
    d.live = true; d.r = r; d.c = c; d.off = 0; d.step = r; d.owner = r > 0 && c > 0;
    d.st = D->new_store(r, c);
    if (d.owner && ((size_t)d.m->elems & 63)) violation("corrupt-object", site, "%s: elements are not aligned to a cache line", what);
    D->check(site, what);
}
void d_make() {
    int k = D->free_slot(); if (k < 0) return;
    DM &d = D->s[k];
    int r = P("rows", 1, D->maxd), c = P("cols", 1, D->maxd), step = r + P("pad", 0, 3);
    Store q; q.v.resize((size_t)(c - 1) * step + r);
    q.buf = (double *)operand_mem(8 * q.v.size(), "user", (int)wrng.below(8) * 8);
    for (size_t x = 0; x < q.v.size(); x++) q.buf[x] = q.v[x] = (double)(int)wrng.below(100) - 50;
    D->st.push_back(q);
    armas_make(d.m, r, c, step, q.buf);
    d.live = true; d.owner = false; d.st = (int)D->st.size() - 1; d.off = 0; d.step = step; d.r = r; d.c = c;
    D->check("armas_make", "armas_make");
}
void d_release() {
    int how = P("how", 0, 3);
    if (how == 3) { armas_release(0); armas_free(0); return; }
    int k = D->pick([](const DM &d) { return d.owner || d.heap; });
    if (k < 0) { k = D->pick(any_obj); if (k < 0) return; }
    DM &d = D->s[k];
    if (!d.owner && !d.heap) {
        // a view or an empty matrix: releasing it does not touch the memory it looks at
        armas_release(d.m);
        d.live = false; D->check("armas_release", "release of a view or an empty matrix");
        return;
    }
    int st = d.st;
    if (d.heap && how) { armas_free(d.m); d.m = o_struct<armas_dense_t>(); d.heap = false; }
    else {
        armas_release(d.m);
        if (armas_size(d.m) != 0 || d.m->elems) violation("corrupt-object", "armas_release", "the released matrix is not empty");
        if (PF("twice", .5)) armas_release(d.m);
        // it can be initialised again
        if (d.heap) { armas_free(d.m); d.m = o_struct<armas_dense_t>(); d.heap = false; }
    }
    d.owner = d.live = false;
    D->drop_store(st);
    D->check("armas_release", "release");
}
void d_newcopy() {
    int b = D->pick(any_live), k = D->heap_slot(); if (b < 0 || k < 0) return;
    AllocFault f; o_arm(f);
    armas_dense_t *m = armas_newcopy(D->s[b].m);
    u64 nf = o_disarm(); emit(m != 0);
    if (!m) { if (!nf) violation("false-failure", "armas_newcopy", "no copy without a fault"); probe("create-failed"); D->check("armas_newcopy", "failed copy"); return; }
    if (nf) violation("false-success", "armas_newcopy", "a copy although its memory could not be allocated");
    DM &d = D->s[k], &s = D->s[b];
    d.m = m; d.heap = d.owner = d.live = true; d.r = s.r; d.c = s.c; d.off = 0; d.step = d.r; d.st = D->new_store(d.r, d.c);
    for (int j = 0; j < d.c; j++) for (int i = 0; i < d.r; i++) D->at(d, i, j) = D->at(s, i, j);
    D->check("armas_newcopy", "copy");
}
void d_view() {
    int b = D->pick(any_obj), k = D->free_slot(); if (b < 0 || k < 0 || b == k || !D->s[b].live) return;
    DM &s = D->s[b], v = D->s[k];
    int kind = P("view", 0, 6);
    bool neg = PF("neg", .3);
    if (s.r == 0 || s.c == 0) {
        // views of an empty matrix are empty
        armas_dense_t *r = kind == 0 ? armas_column(v.m, s.m, 0) : kind == 1 ? armas_row(v.m, s.m, 0) : armas_submatrix(v.m, s.m, 0, 0, 0, 0);
        if (r || armas_size(v.m)) violation("false-success", "view", "view of an empty matrix is not empty");
        return;
    }
    char what[120]; armas_dense_t *r = 0;
    v.live = true; v.owner = v.heap = false; v.st = s.st;
    switch (kind) {
    case 0: { int c = P("at", 0, s.c - 1); r = armas_column(v.m, s.m, neg ? c - s.c : c); v.off = s.off + c * s.step; v.step = s.step; v.r = s.r; v.c = 1; snprintf(what, sizeof what, "column %d of %dx%d", c, s.r, s.c); break; }
    case 1: { int i = P("at", 0, s.r - 1); r = armas_row(v.m, s.m, neg ? i - s.r : i); v.off = s.off + i; v.step = s.step; v.r = 1; v.c = s.c; snprintf(what, sizeof what, "row %d of %dx%d", i, s.r, s.c); break; }
    case 2: case 3: {
        int i = P("at", 0, s.r - 1), j = P("at2", 0, s.c - 1), nr = P("nr", 0, s.r - i), nc = P("nc", 0, s.c - j);
        bool allr = PF("allr", .2), allc = PF("allc", .2);
        if (allr) nr = s.r - i;
        if (allc) nc = s.c - j;
        r = armas_submatrix(v.m, s.m, neg ? i - s.r : i, neg ? j - s.c : j, allr ? -1 : nr, allc ? -1 : nc);
        v.off = s.off + j * s.step + i; v.step = s.step; v.r = nr; v.c = nc; snprintf(what, sizeof what, "submatrix %d,%d %dx%d of %dx%d", i, j, nr, nc, s.r, s.c); break; }
    case 4: {
        int q = P("at", -(s.r - 1), s.c - 1), n = q >= 0 ? std::min(s.r, s.c - q) : std::min(s.r + q, s.c);
        r = armas_diag(v.m, s.m, q); v.off = s.off + (q > 0 ? q * s.step : -q); v.step = s.step + 1; v.r = 1; v.c = n; snprintf(what, sizeof what, "diagonal %d of %dx%d", q, s.r, s.c); break; }
    case 5: {
        if (!D->vec(s)) { armas_subvector(v.m, s.m, 0, 1); if (armas_size(v.m)) violation("false-success", "armas_subvector", "subvector of %dx%d is not empty", s.r, s.c); return; }
        int len = std::max(s.r, s.c), i = P("at", 0, len - 1), n = P("nr", 0, len - i);
        r = armas_subvector(v.m, s.m, neg ? i - len : i, n); v.step = s.step;
        if (s.r == 1) { v.off = s.off + i * s.step; v.r = 1; v.c = n; } else { v.off = s.off + i; v.r = n; v.c = 1; }
        snprintf(what, sizeof what, "subvector %d,%d of %dx%d", i, n, s.r, s.c); break; }
    default: {
        if (s.c != 1) { v.live = false; return; }
        r = armas_col_as_row(v.m, s.m); v.off = s.off; v.step = 1; v.r = 1; v.c = s.r; snprintf(what, sizeof what, "column as row of %d", s.r); break; }
    }
    if (!r) violation("false-failure", "view", "%s: no view", what);
    D->s[k] = v;
    D->check("view", what);
}
void d_elem() {
    int k = D->pick(any_obj); if (k < 0) return;
    DM &d = D->s[k]; char what[120];
    if (d.r == 0 || d.c == 0) {
        armas_set(d.m, 0, 0, 1.0); armas_set_at(d.m, 0, 1.0);
        if (armas_get(d.m, 0, 0) != 0 || armas_get_at(d.m, 0) != 0) violation("wrong-result", "armas_get", "an empty matrix has an element");
        return;
    }
    int i = P("row", 0, d.r - 1), j = P("col", 0, d.c - 1); bool neg = PF("neg", .3);
    double v = (double)(int)wrng.below(1000) - 500;
    int how = P("how", 0, 2);
    snprintf(what, sizeof what, "element %d,%d of %dx%d way %d%s", i, j, d.r, d.c, how, neg ? " negative" : "");
    if (how == 0) {
        armas_set(d.m, neg ? i - d.r : i, neg ? j - d.c : j, v); D->at(d, i, j) = v;
        if (armas_get(d.m, neg ? i - d.r : i, neg ? j - d.c : j) != v || armas_index(d.m, neg ? i - d.r : i, neg ? j - d.c : j) != armas_index_unsafe(d.m, i, j) || armas_data(d.m)[armas_index(d.m, i, j)] != v)
            violation("wrong-result", "armas_get", "%s: stored value is not there", what);
    } else if (how == 1) {
        int ix = d.c == 1 ? i : d.r == 1 ? j : j * d.r + i, n = d.r * d.c;
        armas_set_at(d.m, neg ? ix - n : ix, v); D->at(d, i, j) = v;
        if (armas_get_at(d.m, neg ? ix - n : ix) != v) violation("wrong-result", "armas_get_at", "%s: stored value is not there", what);
        if (!armas_index_valid(d.m, ix) || !armas_index_valid(d.m, -n) || armas_index_valid(d.m, n) || armas_index_valid(d.m, -n - 1)) violation("wrong-result", "armas_index_valid", "%s", what);
    } else if (D->vec(d)) {
        int ix = d.c == 1 ? i : j;
        armas_set_at_unsafe(d.m, ix, v); D->at(d, i, j) = v;
        if (armas_get_at_unsafe(d.m, ix) != v) violation("wrong-result", "armas_get_at_unsafe", "%s: stored value is not there", what);
    }
    D->check("armas_set", what);
}
// element-wise updates through any view
void d_update() {
    int k = D->pick(any_obj); if (k < 0) return;
    DM &d = D->s[k];
    if (D->maxval() > 1e9) return;
    int op = P("update", 0, 8), flags = o_flags(d, op == 0 || op == 1 || op == 2 || op == 5 || op == 6);
    if ((op == 1 || op == 2) && d.r == d.c && !flags && PF("symm", .3)) flags = ARMAS_SYMM | (PF("unit", .3) ? ARMAS_UNIT : 0);
    static const char *nm[] = {"armas_make_trm", "armas_set_values", "armas_set_all", "armas_apply", "armas_apply2", "armas_madd", "armas_mscale", "armas_iterate", "armas_scale"};
    const char *site = nm[op];
    char what[120]; snprintf(what, sizeof what, "%s%s%s on %dx%d step %d", site, o_fname(flags), flags & ARMAS_SYMM ? flags & ARMAS_UNIT ? " SYMM|UNIT" : " SYMM" : "", d.r, d.c, d.step);
    armas_conf_t cf = *armas_conf_default(); cf.error = 0;
    o_calls = 0; o_param = (double)(int)wrng.below(50) - 25;
    int expect = 0, rc = 0;
    auto each = [&](auto fn) { for (int j = 0; j < d.c; j++) for (int i = 0; i < d.r; i++) if (o_sel(flags & ~ARMAS_SYMM, i, j) || (flags & ARMAS_SYMM)) { expect++; fn(i, j, D->at(d, i, j)); } };
    alloc_fault(0);
    switch (op) {
    case 0:
        if (!flags) return;
        armas_make_trm(d.m, flags);
        for (int j = 0; j < d.c; j++) for (int i = 0; i < d.r; i++) {
            if (flags & ARMAS_UPPER ? i > j : i < j) D->at(d, i, j) = 0;
            if (i == j && (flags & ARMAS_UNIT)) D->at(d, i, j) = 1;
        }
        break;
    case 1: case 2:
        rc = op == 1 ? armas_set_values(d.m, o_val, flags) : armas_set_all(d.m, o_gen, flags);
        if (flags & ARMAS_SYMM) {
            for (int j = 0; j < d.c; j++) for (int i = j; i < d.r; i++) {
                if (i == j && (flags & ARMAS_UNIT)) { D->at(d, i, i) = 1; continue; }
                expect++; D->at(d, i, j) = D->at(d, j, i) = op == 1 ? o_param + 3 * i + 100 * j : o_param;
            }
        } else each([&](int i, int j, double &x) { x = op == 1 ? o_param + 3 * i + 100 * j : o_param; });
        break;
    case 3: rc = armas_apply(d.m, o_neg, flags); each([&](int, int, double &x) { x = -x; }); break;
    case 4: rc = armas_apply2(d.m, o_add, &o_param, flags); each([&](int, int, double &x) { x += o_param; }); break;
    case 5: rc = armas_madd(d.m, o_param, flags, &cf); each([&](int, int, double &x) { x += o_param; }); expect = 0; break;
    case 6: { double a = PC("factor", {2, -1, 0, 1, -3}); rc = armas_mscale(d.m, a, flags, &cf); each([&](int, int, double &x) { x *= a; }); expect = 0; break; }
    case 7: {
        int n = 0; double sum = 0; each([&](int, int, double &x) { n++; sum += x; });
        ItCtx c = {0, 0, 0}; bool stop = n && PF("stop", .3); if (stop) c.stop = 1 + (int)wrng.below(n);
        rc = armas_iterate(d.m, o_it, &c, flags);
        if (stop ? !(rc < 0) || c.n != c.stop : rc || c.n != n || c.sum != sum) violation("wrong-result", site, "%s: returned %d after %d of %d elements, sum %.17g, expected %.17g", what, rc, c.n, stop ? c.stop : n, c.sum, sum);
        rc = 0; expect = 0; break; }
    default: {
        double a = PC("factor", {2, -1, 0, 1, -3}); rc = armas_scale(d.m, a, &cf);
        if (!D->vec(d) && d.r && d.c) { if (rc >= 0 || !cf.error) violation("false-success", site, "%s: accepted a matrix", what); rc = 0; }
        else { flags = 0; each([&](int, int, double &x) { x *= a; }); }
        expect = 0; break; }
    }
    if (rc) violation("false-failure", site, "%s: returned %d", what, rc);
    if (o_calls != expect && op <= 4) violation("wrong-result", site, "%s: the function was called %d times for %d elements", what, o_calls, expect);
    if (alloc_count()) violation("allocates", site, "%s: allocates memory", what);
    D->check(site, what);
}
void d_binary() {
    int a = D->pick(any_live), b = D->pick(any_live); if (a < 0 || b < 0) return;
    DM &x = D->s[a], &y = D->s[b];
    if (D->maxval() > 1e9) return;
    if (x.st == y.st) return;                   // operands do not overlap
    int op = P("binary", 0, 3); armas_conf_t cf = *armas_conf_default(); cf.error = 0;
    int flags = 0, rc; bool trans = PF("trans", .4);
    char what[160];
    auto refused = [&](const char *site, int rc) { if (rc >= 0 || cf.error == 0) violation("false-success", site, "%s: different sizes are accepted", what); };
    bool vv = D->vec(x) && D->vec(y);
    alloc_fault(0);
    if (op == 0) {
        snprintf(what, sizeof what, "armas_mcopy%s %dx%d from %dx%d", trans ? " TRANS" : "", x.r, x.c, y.r, y.c);
        rc = armas_mcopy(x.m, y.m, trans ? ARMAS_TRANS : 0, &cf);
        bool fit = vv ? D->size(x) == D->size(y) : trans ? x.r == y.c && x.c == y.r : x.r == y.r && x.c == y.c;
        if (!fit) refused("armas_mcopy", rc);
        else {
            if (rc) violation("false-failure", "armas_mcopy", "%s: returned %d", what, rc);
            for (int j = 0; j < x.c; j++) for (int i = 0; i < x.r; i++) D->at(x, i, j) = vv ? (y.c == 1 ? D->at(y, i + j, 0) : D->at(y, 0, i + j)) : trans ? D->at(y, j, i) : D->at(y, i, j);
        }
        D->check("armas_mcopy", what);
    } else if (op == 1) {
        if (vv) return;
        flags = trans ? ARMAS_TRANS : o_flags(x, false);
        double al = PC("alpha", {1, 2, -1, 0}), be = PC("beta", {1, -1, 2, 3});
        bool one = D->size(y) == 1;
        if (one) { al = 1; flags = 0; }
        snprintf(what, sizeof what, "armas_mplus%s%s %dx%d with %dx%d alpha %g beta %g", trans ? " TRANS" : "", o_fname(flags), x.r, x.c, y.r, y.c, al, be);
        rc = armas_mplus(al, x.m, be, y.m, flags, &cf);
        bool fit = one || (trans ? x.r == y.c && x.c == y.r : x.r == y.r && x.c == y.c);
        if (!fit) refused("armas_mplus", rc);
        else {
            if (rc) violation("false-failure", "armas_mplus", "%s: returned %d", what, rc);
            for (int j = 0; j < x.c; j++) for (int i = 0; i < x.r; i++) if (o_sel(flags, i, j))
                D->at(x, i, j) = al * D->at(x, i, j) + be * (one ? D->at(y, 0, 0) : trans ? D->at(y, j, i) : D->at(y, i, j));
        }
        D->check("armas_mplus", what);
    } else {
        if (!vv) return;
        const char *site = op == 2 ? "armas_copy" : "armas_swap";
        int n = std::min(D->size(x), D->size(y));
        snprintf(what, sizeof what, "%s %dx%d with %dx%d", site, x.r, x.c, y.r, y.c);
        if (op == 3 && D->size(x) != D->size(y)) return;
        rc = op == 2 ? armas_copy(x.m, y.m, &cf) : armas_swap(x.m, y.m, &cf);
        if (rc) violation("false-failure", site, "%s: returned %d", what, rc);
        auto el = [&](DM &d, int k) -> double & { return d.c == 1 ? D->at(d, k, 0) : D->at(d, 0, k); };
        for (int k = 0; k < n; k++) if (op == 2) el(x, k) = el(y, k); else std::swap(el(x, k), el(y, k));
        D->check(site, what);
    }
    if (alloc_count()) violation("allocates", "binary", "%s: allocates memory", what);
}

// ------------------------------------------------------------------ pivot vectors
struct PV { armas_pivot_t *p; bool heap = false, live = false; std::vector<int> v; int *buf = 0; };
void p_check(PV &q, const char *what) {
    if (armas_pivot_size(q.p) != (int)q.v.size()) violation("corrupt-object", "armas_pivot", "%s: size is %d, expected %zu", what, armas_pivot_size(q.p), q.v.size());
    for (size_t k = 0; k < q.v.size(); k++) if (armas_pivot_get(q.p, (int)k) != q.v[k] || armas_pivot_get_unsafe(q.p, (int)k) != q.v[k] || armas_pivot_data(q.p)[k] != q.v[k])
        violation("wrong-contents", "armas_pivot", "%s: entry %zu is %d, expected %d", what, k, armas_pivot_get(q.p, (int)k), q.v[k]);
    if (armas_pivot_get(q.p, -1) || armas_pivot_get(q.p, (int)q.v.size())) violation("wrong-result", "armas_pivot_get", "%s: index outside of the vector", what);
    checked();
}
void p_release(PV &q) {
    if (q.heap) { armas_pivot_free(q.p); q.p = o_struct<armas_pivot_t>(); q.heap = q.live = false; q.v.clear(); return; }
    armas_pivot_release(q.p); q.v.clear(); p_check(q, "released");
    if (PF("twice", .5)) { armas_pivot_release(q.p); p_check(q, "released twice"); }
    q.live = false;
}
void p_step(std::vector<PV> &pv) {
    PV &q = pv[P("pivot", 0, (int)pv.size() - 1)];
    AllocFault f;
    int op = P("pop", 0, 6);
    if (op <= 2 && !q.live) {
        int n = P("len", 0, 2 * D->maxd);
        if (op == 2) {
            q.buf = (int *)operand_mem(4 * std::max(n, 1), "pivots"); q.v.assign(n, 0);
            for (int k = 0; k < n; k++) q.buf[k] = q.v[k] = (int)wrng.below(100);
            o_garbage(q.p); armas_pivot_make(q.p, n, q.buf); q.live = true; q.heap = false; p_check(q, "made"); return;
        }
        if (op == 0) o_garbage(q.p);
        o_arm(f);
        armas_pivot_t *p = op == 0 ? armas_pivot_init(q.p, n) : armas_pivot_new(n);
        u64 nf = o_disarm(); emit(p != 0);
        const char *site = op == 0 ? "armas_pivot_init" : "armas_pivot_new";
        if (!p) {
            if (!nf) violation("false-failure", site, "no pivot vector of %d without a fault", n);
            probe("create-failed");
            if (op == 0) { q.v.clear(); p_check(q, "failed"); armas_pivot_release(q.p); p_check(q, "failed and released"); }
            return;
        }
        if (nf) violation("false-success", site, "success although memory could not be allocated");
        if (op == 1) { q.p = p; q.heap = true; }
        q.live = true; q.v.assign(n, 0); p_check(q, "new");
        return;
    }
    if (!q.live) { if (op == 3) { armas_pivot_release(0); armas_pivot_free(0); if (armas_pivot_size(0) || armas_pivot_get(0, 0) || armas_pivot_data(0)) violation("wrong-result", "armas_pivot", "no vector has entries"); armas_pivot_init(0, 3); } return; }
    if (op == 3) { p_release(q); return; }
    if (op == 4) {
        for (int t = 0; t < 4; t++) { int k = P("at", -1, (int)q.v.size()), v = (int)wrng.below(100); armas_pivot_set(q.p, k, v); if (k >= 0 && k < (int)q.v.size()) q.v[k] = v; }
        p_check(q, "set"); return;
    }
    // apply to a matrix
    int k = D->pick(any_live); if (k < 0 || q.v.empty()) return;
    DM &d = D->s[k];
    int kind = P("dir", 0, 7), back = kind & 1; kind >>= 1;           // rows, columns, symmetric lower, symmetric upper
    int len = (int)q.v.size(), lim = kind == 0 ? d.r : kind == 1 ? d.c : d.r;
    if (kind >= 2 && (d.r != d.c)) return;
    bool fits = len <= lim;
    for (int x = 0; x < len; x++) { int v = kind < 2 && PF("none", .2) ? 0 : 1 + (int)wrng.below(std::max(lim, 1)); armas_pivot_set(q.p, x, v); q.v[x] = v; }
    p_check(q, "set");
    armas_conf_t cf = *armas_conf_default(); cf.error = 0;
    char what[120]; static const char *kn[] = {"rows", "columns", "symmetric lower", "symmetric upper"};
    snprintf(what, sizeof what, "%d pivots on %s of %dx%d %s", len, kn[kind], d.r, d.c, back ? "backward" : "forward");
    static const int kf[] = {ARMAS_PIVOT_ROWS, ARMAS_PIVOT_COLS, ARMAS_PIVOT_LOWER, ARMAS_PIVOT_UPPER};
    alloc_fault(0);
    int rc = kind < 2 && PF("direct", .5) ? (kind == 0 ? armas_pivot_rows(d.m, q.p, back ? ARMAS_PIVOT_BACKWARD : ARMAS_PIVOT_FORWARD, &cf) : armas_pivot_cols(d.m, q.p, back ? ARMAS_PIVOT_BACKWARD : ARMAS_PIVOT_FORWARD, &cf))
                                          : armas_pivot(d.m, q.p, kf[kind] | (back ? ARMAS_PIVOT_BACKWARD : ARMAS_PIVOT_FORWARD), &cf);
    if (!fits) { if (rc >= 0) violation("false-success", "armas_pivot", "%s: accepted", what); D->check("armas_pivot", what); return; }
    if (rc) violation("false-failure", "armas_pivot", "%s: returned %d", what, rc);
    auto swp = [&](int x, int y) {
        if (x == y) return;
        if (kind == 0) { for (int j = 0; j < d.c; j++) std::swap(D->at(d, x, j), D->at(d, y, j)); return; }
        if (kind == 1) { for (int i = 0; i < d.r; i++) std::swap(D->at(d, i, x), D->at(d, i, y)); return; }
        // the stored triangle of P*A*P^T
        bool low = kind == 2; int n = d.r;
        std::vector<double> t((size_t)n * n);
        auto el = [&](int i, int j) -> double & { return (low ? i >= j : i <= j) ? D->at(d, i, j) : D->at(d, j, i); };
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { int a = i == x ? y : i == y ? x : i, b = j == x ? y : j == y ? x : j; t[i + (size_t)j * n] = el(a, b); }
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (low ? i >= j : i <= j) D->at(d, i, j) = t[i + (size_t)j * n];
    };
    if (!back) { for (int x = 0; x < len; x++) if (q.v[x] > 0) swp(q.v[x] - 1, x); }
    else for (int x = len - 1, nk = lim - 1; x >= 0; x--, nk--) if (q.v[x] > 0) swp(q.v[x] - 1, nk);
    D->check("armas_pivot", what); p_check(q, "applied");
}

// ------------------------------------------------------------------ workspaces
struct WB { armas_wbuf_t *w; bool heap = false, live = false; size_t bytes = 0, off = 0; std::vector<unsigned char> c; };
void w_check(WB &q, const char *what) {
    if (q.w->bytes != q.bytes || armas_wpos(q.w) != q.off || armas_wbytes(q.w) != q.bytes - q.off) violation("corrupt-object", "armas_wbuf", "%s: %zu bytes, position %zu, expected %zu and %zu", what, q.w->bytes, armas_wpos(q.w), q.bytes, q.off);
    if (q.bytes && armas_wptr(q.w) != q.w->buf + q.off) violation("corrupt-object", "armas_wptr", "%s: pointer is not at the position", what);
    for (size_t k = 0; k < q.bytes; k++) if ((unsigned char)q.w->buf[k] != q.c[k]) violation("wrong-contents", "armas_wbuf", "%s: byte %zu has changed", what, k);
    checked();
}
void w_release(WB &q) {
    if (q.heap) { armas_wfree(q.w); q.w = o_struct<armas_wbuf_t>(); q.heap = false; }
    else { armas_wrelease(q.w); q.bytes = q.off = 0; w_check(q, "released"); if (PF("twice", .5)) armas_wrelease(q.w); }
    q.live = false; q.bytes = q.off = 0; q.c.clear();
}
void w_step(std::vector<WB> &wv) {
    WB &q = wv[P("work", 0, (int)wv.size() - 1)];
    AllocFault f; int op = P("wop", 0, 6);
    if (!q.live) {
        if (op == 6) { armas_wrelease(0); armas_wfree(0); if (armas_wbytes(0) || armas_wpos(0) || armas_wptr(0) || armas_wreserve_bytes(0, 1)) violation("wrong-result", "armas_wbuf", "no workspace has bytes"); armas_wsetpos(0, 0); return; }
        bool heap = op & 1; size_t n = 1 + wrng.below(400);
        if (!heap) o_garbage(q.w);
        o_arm(f);
        armas_wbuf_t *w = heap ? armas_wnew(n) : armas_walloc(q.w, n);
        u64 nf = o_disarm(); emit(w != 0);
        const char *site = heap ? "armas_wnew" : "armas_walloc";
        if (!w) {
            if (!nf) violation("false-failure", site, "no workspace of %zu bytes without a fault", n);
            probe("create-failed");
            if (!heap) { q.bytes = q.off = 0; w_check(q, "failed"); if (armas_wreserve_bytes(q.w, 1)) violation("false-success", site, "a failed workspace has space"); armas_wrelease(q.w); }
            return;
        }
        if (nf) violation("false-success", site, "success although memory could not be allocated");
        if (heap) { q.w = w; q.heap = true; }
        q.live = true; q.bytes = n; q.off = 0; q.c.assign(n, 0); w_check(q, "new");
        return;
    }
    switch (op) {
    case 0: w_release(q); return;
    case 1: case 2: case 3: {
        size_t left = q.bytes - q.off, n = wrng.below(left + 4), take = n; void *p;
        if (op == 1) p = armas_wreserve_bytes(q.w, n);
        else if (op == 2) { n = wrng.below(left / 8 + 3); take = 8 * n; p = armas_wreserve(q.w, n, 8); }
        else { n = wrng.below(8 * left + 20); take = (n + 7) / 8; p = armas_wreserve_bits(q.w, n); }
        if (take > left) { if (p) violation("false-success", "armas_wreserve", "%zu bytes reserved, %zu are left", take, left); w_check(q, "refused"); return; }
        if (!p) violation("false-failure", "armas_wreserve", "%zu bytes not reserved, %zu are left", take, left);
        if (p != q.w->buf + q.off) violation("wrong-result", "armas_wreserve", "reserved space is not at the position");
        for (size_t k = 0; k < take; k++) { q.c[q.off + k] = (unsigned char)wrng.below(256); ((unsigned char *)p)[k] = q.c[q.off + k]; }
        q.off += take; w_check(q, "reserved"); return; }
    case 4: armas_wreset(q.w); q.off = 0; w_check(q, "reset"); return;
    case 5: { size_t n = wrng.below(q.bytes + 1); armas_wzero(q.w, n); for (size_t k = 0; k < (n ? n : q.bytes); k++) q.c[k] = 0; w_check(q, "zeroed"); return; }
    default: { size_t p = wrng.below(q.bytes + 10); if (p == q.bytes) p--; armas_wsetpos(q.w, p); if (p < q.bytes) q.off = p; w_check(q, "positioned"); return; }
    }
}

// ------------------------------------------------------------------ cache buffers
struct CB { armas_cbuf_t *b; bool heap = false, live = false; char *ub = 0; size_t un = 0; unsigned char fill = 0; };
void c_touch(const char *site, armas_cbuf_t *b, size_t atleast, size_t atmost, char *lo, size_t n, int fill) {
    if (((size_t)b->data & 63)) violation("corrupt-object", site, "buffer is not aligned to a cache line");
    if (b->len < atleast || b->len > atmost) violation("corrupt-object", site, "buffer of %zu bytes, expected %zu to %zu", b->len, atleast, atmost);
    if (lo && (b->data < lo || b->data + b->len > lo + n)) violation("corrupt-object", site, "buffer is not inside of the given space");
    memset(b->data, fill, b->len);      // guards around it are checked
    check_heap(); checked();
}
// the parts of a split buffer do not overlap and do not leave it
void c_split(armas_cbuf_t *b) {
    if (b->len < 1024) return;
    size_t m = 4 * P("mb", 1, 64), n = 4 * P("nb", 1, 64), k = 4 * P("kb", 1, 64); void *pa = 0, *pb = 0, *pc = 0;
    extern void armas_cbuf_split2(armas_cbuf_t *, void **, void **, size_t *, size_t *, size_t *, size_t) asm("armas_cbuf_split2");
    extern void armas_cbuf_split3(armas_cbuf_t *, void **, void **, void **, size_t *, size_t *, size_t *, size_t) asm("armas_cbuf_split3");
    size_t m0 = m, n0 = n, k0 = k; bool three = PF("three", .5);
    if (three) armas_cbuf_split3(b, &pa, &pb, &pc, &m, &n, &k, 8); else armas_cbuf_split2(b, &pa, &pb, &m, &n, &k, 8);
    char *e = b->data + b->len; const char *site = three ? "armas_cbuf_split3" : "armas_cbuf_split2";
    char *A = (char *)pa, *B = (char *)pb, *C = (char *)pc;
    if (!m || !n || !k) violation("wrong-result", site, "empty block (%zu,%zu,%zu) from (%zu,%zu,%zu)", m, n, k, m0, n0, k0);
    if (A < b->data || A + 8 * m * k > B || B + 8 * n * k > (three ? C : e) || (three && C + 8 * m * n > e)) violation("wrong-result", site, "blocks (%zu,%zu,%zu) from (%zu,%zu,%zu) overlap or leave the buffer of %zu bytes", m, n, k, m0, n0, k0, b->len);
    if (((size_t)A & 63) || ((size_t)B & 63) || (8 * k) % 64) violation("wrong-result", site, "block columns are not aligned to cache lines");
    checked();
}
void c_release(CB &q) {
    if (q.heap) { armas_cbuf_free(q.b); q.b = o_struct<armas_cbuf_t>(); q.heap = false; }
    else { armas_cbuf_release(q.b); if (PF("twice", .5)) armas_cbuf_release(q.b); }
    q.live = false;
}
void c_step(std::vector<CB> &cv) {
    CB &q = cv[P("cbuf", 0, (int)cv.size() - 1)];
    AllocFault f; int op = P("cop", 0, 5);
    if (q.live) {
        if (op <= 2) { for (size_t k = 0; k < q.b->len; k++) if ((unsigned char)q.b->data[k] != q.fill) violation("wrong-contents", "armas_cbuf", "byte %zu of a cache buffer has changed", k); c_split(q.b); c_release(q); }
        return;
    }
    size_t cmem = PC("cmem", {64, 1024, 1000, 5000, 32768, 100001}), l1 = PC("l1mem", {0, 1024, 16384});
    q.fill = (unsigned char)wrng.below(256);
    if (op == 5) { armas_cbuf_release(0); armas_cbuf_free(0); return; }
    if (op == 2) {
        size_t n = 1024 + wrng.below(3000); q.ub = (char *)operand_mem(n, "cache", (int)wrng.below(64));
        o_garbage(q.b); alloc_fault(0);
        if (armas_cbuf_make(q.b, q.ub, n, l1) != q.b || alloc_count()) violation("wrong-result", "armas_cbuf_make", "another buffer or allocates");
        c_touch("armas_cbuf_make", q.b, n - 63, n, q.ub, n, q.fill);
        q.live = true; return;
    }
    if (op <= 1) {
        if (op == 0) o_garbage(q.b);
        o_arm(f);
        armas_cbuf_t *b = op == 0 ? armas_cbuf_init(q.b, cmem, l1) : armas_cbuf_new(cmem, l1);
        u64 nf = o_disarm(); emit(b != 0);
        const char *site = op == 0 ? "armas_cbuf_init" : "armas_cbuf_new";
        if (!b) { if (!nf) violation("false-failure", site, "no cache buffer without a fault"); probe("create-failed"); if (op == 0) armas_cbuf_release(q.b); return; }
        if (nf) violation("false-success", site, "success although memory could not be allocated");
        if (op == 1) { q.b = b; q.heap = true; }
        c_touch(site, q.b, cmem, ~0ull, 0, 0, q.fill); q.live = true;
        return;
    }
    if (op == 3) {
        bool a = o_arm(f);
        armas_cbuf_t *x = armas_cbuf_get_thread_global();
        u64 nf = o_disarm();
        if (!x) { if (!nf) violation("false-failure", "armas_cbuf_get_thread_global", "no buffer without a fault"); probe("create-failed"); return; }
        (void)a;
        if (armas_cbuf_get_thread_global() != x || armas_cbuf_create_thread_global() != x) violation("wrong-result", "armas_cbuf_get_thread_global", "another buffer on the second call");
        c_touch("armas_cbuf_get_thread_global", x, armas_getenv()->cmem, ~0ull, 0, 0, q.fill); c_split(x);
        if (PF("drop", .7)) { armas_cbuf_release_thread_global(); armas_cbuf_release_thread_global(); }
        return;
    }
    // selection by configuration: always gives something usable
    armas_conf_t cf = *armas_conf_default(); armas_wbuf_t wb; size_t need = armas_getenv()->cmem;
    int how = P("how", 0, 3);
    if (how & 1) cf.optflags |= ARMAS_CBUF_LOCAL;
    char *space = 0; size_t n = 0;
    if (how & 2) { bool enough = PF("enough", .6); n = enough ? need + wrng.below(200) : wrng.below(need); space = (char *)operand_mem(n + 8, "conf work", (int)wrng.below(64)); wb.buf = space; wb.bytes = n; wb.offset = 0; cf.work = &wb; }
    armas_cbuf_t cb; o_garbage(&cb);
    o_arm(f);
    int rc = armas_cbuf_select(&cb, how == 0 && PF("noconf", .3) ? 0 : &cf);
    o_disarm();
    if (rc) violation("false-failure", "armas_cbuf_select", "returned %d", rc);
    bool mine = space && n >= need;
    c_touch("armas_cbuf_select", &cb, 512, ~0ull, mine ? space : 0, n, 0x5a);
    c_split(&cb);
    armas_cbuf_release(&cb); armas_cbuf_release(&cb);
    if (mine && (wb.bytes != n || wb.offset)) violation("workspace", "armas_cbuf_select", "the workspace is not free again");
}

// ------------------------------------------------------------------ accumulators
void a_step() {
    AllocFault f; armas_accum_t acc; o_garbage(&acc);
    int n = P("dim", 1, 3 * D->maxd); bool own = PF("own", .6);
    size_t nb = armas_accum_bytes(n);
    if (own) {
        o_arm(f);
        int rc = armas_accum_allocate(&acc, n);
        u64 nf = o_disarm(); emit(rc);
        if (rc) { if (!nf) violation("false-failure", "armas_accum_allocate", "returned %d", rc); probe("create-failed"); armas_accum_release(&acc); armas_accum_release(&acc); return; }
        if (nf) violation("false-success", "armas_accum_allocate", "success although memory could not be allocated");
    } else {
        char *b = (char *)operand_mem(nb, "accumulator"); memset(b, wrng.below(2) ? 0xff : 0, nb);
        if (armas_accum_make(&acc, n, b, nb - 1)) violation("false-success", "armas_accum_make", "accepted %zu bytes, needs %zu", nb - 1, nb);
        if (armas_accum_make(&acc, n, b, nb) != nb) violation("false-failure", "armas_accum_make", "refused %zu bytes", nb);
    }
    armas_accum_clear(&acc);
    // two rounds, as the columns of a product
    armas_sparse_t *C = armassp_new(n, 2, 2 * n, ARMASSP_CSC);
    if (!C) violation("false-failure", "armassp_new", "no matrix");
    for (int col = 0; col < 2; col++) {
        acc.tail = 0;
        std::vector<double> v(n, 0.0); std::vector<char> on(n, 0);
        for (int t = P("terms", 0, 6); t > 0; t--) {
            int how = (int)wrng.below(3);
            if (how == 0) { int k = (int)wrng.below(n); double x = (double)(int)wrng.below(20) - 10; armas_accum_addpos(&acc, k, x, col); v[k] += x; on[k] = 1; continue; }
            double xv[2][200]; int xi[2][200], nz[2] = {0, 0};
            for (int s = 0; s < 2; s++) for (int k = 0; k < n; k++) if (wrng.below(3) == 0) { xi[s][nz[s]] = k; xv[s][nz[s]++] = (double)(int)wrng.below(20) - 10; }
            armas_spvec_t x = {xv[0], xi[0], nz[0]}, y = {xv[1], xi[1], nz[1]};
            if (how == 1) { double be = (double)(int)wrng.below(7) - 3; armas_accum_scatter(&acc, &x, be, col); for (int k = 0; k < nz[0]; k++) { v[xi[0][k]] += be * xv[0][k]; on[xi[0][k]] = 1; } }
            else {
                int k = (int)wrng.below(n); double d = 0; bool any = false;
                for (int a = 0; a < nz[0]; a++) for (int b = 0; b < nz[1]; b++) if (xi[0][a] == xi[1][b]) { d += xv[0][a] * xv[1][b]; any = true; }
                armas_accum_dot(&acc, k, &x, &y, col); if (any) { v[k] += d; on[k] = 1; }
            }
        }
        int cnt = 0; for (int k = 0; k < n; k++) cnt += on[k];
        int before = C->nnz;
        if (cnt && armas_accum_gather(C, 1.0, &acc, col, before + cnt - 1) >= 0) violation("false-success", "armas_accum_gather", "%d elements gathered to space of %d", cnt, cnt - 1);
        C->nnz = before;
        if (armas_accum_gather(C, 2.0, &acc, col, C->size)) violation("false-failure", "armas_accum_gather", "%d elements not gathered", cnt);
        C->ptr[col + 1] = C->nnz;
        std::vector<char> seen(n, 0);
        for (int k = C->ptr[col]; k < C->nnz; k++) {
            int i = C->ix[k];
            if (i < 0 || i >= n || !on[i] || seen[i] || C->elems.v[k] != 2 * v[i]) violation("wrong-contents", "armas_accum_gather", "entry %d at %d is %g, expected %g", k, i, C->elems.v[k], i >= 0 && i < n ? 2 * v[i] : 0);
            seen[i] = 1;
        }
        if (C->nnz - C->ptr[col] != cnt) violation("wrong-contents", "armas_accum_gather", "%d entries, expected %d", C->nnz - C->ptr[col], cnt);
    }
    armassp_free(C);
    if (own) { armas_accum_release(&acc); armas_accum_release(&acc); }
    check_heap(); checked();
}

void o_history(int maxd, int nsteps) {
    set_fill(P("fill", 0, 3)); set_align(P("align", 0, 1));
    armas_getenv();
    Dense dd; D = &dd; dd.maxd = maxd; dd.s.resize(8);
    for (auto &d : dd.s) d.m = o_struct<armas_dense_t>();
    std::vector<PV> pv(3); for (auto &q : pv) q.p = o_struct<armas_pivot_t>();
    std::vector<WB> wv(3); for (auto &q : wv) q.w = o_struct<armas_wbuf_t>();
    std::vector<CB> cv(3); for (auto &q : cv) q.b = o_struct<armas_cbuf_t>();
    o_faults = PF("faults", .6);
    int focus = P("focus", 0, 3);
    u64 mark = alloc_mark();
    int n = P("steps", 1, nsteps);
    describe("%d steps%s ", n, o_faults ? ", allocations fail" : "");
    for (int t = 0; t < n; t++) {
        int op = P("op", 0, 15);
        if (focus == 0 && op >= 11) op -= 6;                // mostly matrices
        switch (op) {
        case 0: case 1: d_create(); break;
        case 2: d_make(); break;
        case 3: d_release(); break;
        case 4: d_newcopy(); break;
        case 5: case 6: d_view(); break;
        case 7: d_elem(); break;
        case 8: case 9: d_update(); break;
        case 10: d_binary(); break;
        case 11: case 12: p_step(pv); break;
        case 13: w_step(wv); break;
        case 14: c_step(cv); break;
        default: a_step(); break;
        }
        if (t % 8 == 7) { for (auto &q : wv) if (q.live) w_check(q, "later"); for (auto &q : pv) if (q.live) p_check(q, "later"); }
    }
    // everything is given back
    for (auto &d : dd.s) { if (d.heap) armas_free(d.m); else if (d.owner) armas_release(d.m); }
    for (auto &q : pv) if (q.live) p_release(q);
    for (auto &q : wv) if (q.live) w_release(q);
    for (auto &q : cv) if (q.live) c_release(q);
    armas_cbuf_release_thread_global();
    u64 pc = 0, size = 0, left = leaked_since(mark, &pc, &size);
    if (left) { R->pc[0] = pc; violation("leak", "objects", "%llu blocks remain after all objects are released (first: %llu bytes)", (unsigned long long)left, (unsigned long long)size); }
    check_heap();
    if (n > 5) nontrivial();
}
}
SCENARIO(C15, history, 3, FAST) { o_history(P("big", 0, 3) ? 6 : 20, P("long", 0, 3) ? 40 : 200); }
SCENARIO(C15, history_instr, 1, INSTR) { o_history(6, 40); }
