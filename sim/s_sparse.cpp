// C13: sparse matrices (structure and arithmetic); C14: iterative solvers.
#include "ref.h"
#include <algorithm>
using namespace sim;

// ------------------------------------------------------------------ model: at most one entry per position
struct Ent { int i, j; double v; };
struct SpM { int r = 0, c = 0; std::vector<Ent> e; };
static Mat dense_of(const SpM &m) { Mat a(m.r, m.c); for (auto &x : m.e) a(x.i, x.j) = x.v; return a; }
static SpM transposed(const SpM &m) { SpM t; t.r = m.c; t.c = m.r; for (auto x : m.e) t.e.push_back(Ent{x.j, x.i, x.v}); return t; }
static const char *kindname[] = {"CSC", "CSR", "COO"};

static double sp_val(int cls) {
    if (cls == 1) return (double)(int)(wrng.below(9)) - 4;
    if (cls == 2) return ldexp(2 * wrng.unit() - 1, (int)wrng.below(41) - 20);
    return 2 * wrng.unit() - 1;
}
// pattern: random with density, empty lines, full lines, band, optionally complete diagonal
static void gen_pattern(SpM &m, int r, int c, int cls, int want_diag) {
    m.r = r; m.c = c; m.e.clear();
    int kind = P("pattern", 0, 5);
    double dens = kind == 0 ? 0.1 : kind == 1 ? 0.3 : kind == 2 ? 0.6 : kind == 3 ? 1.0 : 0.35;
    int band = P("band", 0, 3);
    std::vector<char> rowoff(r, 0), coloff(c, 0);
    if (kind == 4) { for (auto &x : rowoff) x = wrng.below(3) == 0; for (auto &x : coloff) x = wrng.below(3) == 0; dens = .7; }
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) {
        bool on = kind == 5 ? abs(i - j) <= band : !rowoff[i] && !coloff[j] && wrng.flip(dens);
        if (want_diag && i == j) on = true;
        if (on) m.e.push_back(Ent{i, j, sp_val(cls)});
    }
    if (!want_diag && P("noent", 0, 24) == 0) m.e.clear();
    // entries in any order
    if (PF("shuffle", .5)) for (size_t k = m.e.size(); k > 1; k--) std::swap(m.e[k - 1], m.e[wrng.below(k)]);
}

// ------------------------------------------------------------------ library matrices in guarded memory
static void build_into(armas_sparse_t *A, const SpM &m, int kind) {
    int n = (int)m.e.size();
    if (kind == ARMASSP_COO) { for (int k = 0; k < n; k++) A->elems.ep[k] = coo_elem_t{m.e[k].v, m.e[k].i, m.e[k].j}; A->nnz = n; return; }
    int p = 0;
    std::vector<Ent> s = m.e;
    bool csr = kind == ARMASSP_CSR;
    std::sort(s.begin(), s.end(), [&](const Ent &a, const Ent &b) { return csr ? a.i != b.i ? a.i < b.i : a.j < b.j : a.j != b.j ? a.j < b.j : a.i < b.i; });
    for (int k = 0; k < A->nptr; k++) {
        A->ptr[k] = p;
        while (p < n && (csr ? s[p].i : s[p].j) == k) { A->elems.v[p] = s[p].v; A->ix[p] = csr ? s[p].j : s[p].i; p++; }
    }
    A->ptr[A->nptr] = p; A->nnz = n;
}
// room for `cap` entries in a block of exactly the size the library asks for; every byte of it is garbage
static armas_sparse_t *sp_space(int r, int c, int cap, int kind, const char *name) {
    armas_sparse_t *A = (armas_sparse_t *)harness_alloc(sizeof *A);
    memset(A, 0, sizeof *A);
    size_t nb = armassp_bytes_needed(r, c, cap, (armassp_type_enum)kind);
    char *d = (char *)operand_mem(nb ? nb : 8, name);
    int g = (int)wrng.below(3);
    for (size_t k = 0; k < nb; k++) d[k] = g == 0 ? 0 : g == 1 ? (char)0xff : (char)wrng.below(256);
    if (armassp_make(A, r, c, cap, (armassp_type_enum)kind, d, nb)) violation("error-return", "armassp_make", "armassp_make failed with enough space");
    if (nb && armassp_make(A, r, c, cap, (armassp_type_enum)kind, d, nb - 1) == 0) violation("false-success", "armassp_make", "accepted %zu bytes, %zu are needed", nb - 1, nb);
    armassp_make(A, r, c, cap, (armassp_type_enum)kind, d, nb);
    if (kind != ARMASSP_COO) for (int k = 0; k <= A->nptr; k++) A->ptr[k] = 0;
    return A;
}
static armas_sparse_t *sp_lib(const SpM &m, int kind, const char *name, int spare = 0) {
    armas_sparse_t *A = sp_space(m.r, m.c, (int)m.e.size() + spare, kind, name);
    build_into(A, m, kind);
    return A;
}
// valid structure; entries read back. order: 0 any, 1 ascending within line
static SpM read_back(const char *site, const armas_sparse_t *A, int order) {
    SpM g; g.r = A->rows; g.c = A->cols;
    if (A->nnz < 0 || (A->nnz > A->size)) violation("bad-structure", site, "%d entries in room for %d", A->nnz, A->size);
    if (A->nnz && armassp_bytes_needed(A->rows, A->cols, A->size, A->kind) > A->__nbytes) violation("bad-structure", site, "room for %d entries is claimed in %zu bytes", A->size, A->__nbytes);
    if (A->kind == ARMASSP_COO) {
        for (int k = 0; k < A->nnz; k++) g.e.push_back(Ent{A->elems.ep[k].i, A->elems.ep[k].j, A->elems.ep[k].val});
    } else if (A->kind == ARMASSP_CSR || A->kind == ARMASSP_CSC) {
        bool csr = A->kind == ARMASSP_CSR;
        int lines = csr ? A->rows : A->cols, other = csr ? A->cols : A->rows;
        if (A->rows == 0 || A->cols == 0) { if (A->nnz) violation("bad-structure", site, "%d entries in a %dx%d matrix", A->nnz, A->rows, A->cols); return g; }
        if (A->nptr != lines) violation("bad-structure", site, "%s %dx%d with %d lines", kindname[A->kind], A->rows, A->cols, A->nptr);
        if (A->ptr[0] != 0 || A->ptr[lines] != A->nnz) violation("bad-structure", site, "pointers start at %d and end at %d with %d entries", A->ptr[0], A->ptr[lines], A->nnz);
        for (int k = 0; k < lines; k++) {
            if (A->ptr[k] > A->ptr[k + 1] || A->ptr[k] < 0 || A->ptr[k + 1] > A->nnz) violation("bad-structure", site, "line %d spans %d..%d of %d", k, A->ptr[k], A->ptr[k + 1], A->nnz);
            for (int p = A->ptr[k]; p < A->ptr[k + 1]; p++) {
                if (A->ix[p] < 0 || A->ix[p] >= other) violation("bad-structure", site, "index %d in line %d of a %dx%d %s matrix", A->ix[p], k, A->rows, A->cols, kindname[A->kind]);
                if (order && p > A->ptr[k] && A->ix[p] <= A->ix[p - 1]) violation("bad-order", site, "line %d: index %d follows %d", k, A->ix[p], A->ix[p - 1]);
                g.e.push_back(csr ? Ent{k, A->ix[p], A->elems.v[p]} : Ent{A->ix[p], k, A->elems.v[p]});
            }
        }
    } else violation("bad-structure", site, "kind %d", A->kind);
    for (auto &x : g.e) if (x.i < 0 || x.j < 0 || x.i >= g.r || x.j >= g.c) violation("bad-structure", site, "entry (%d,%d) in a %dx%d matrix", x.i, x.j, g.r, g.c);
    return g;
}
// same entries (exact values), nothing twice
static void same_entries(const char *site, const char *what, const armas_sparse_t *A, const SpM &m, int order) {
    if (A->rows != m.r || A->cols != m.c) {
        if (m.r && m.c) violation("wrong-size", site, "%s: result is %dx%d, expected %dx%d", what, A->rows, A->cols, m.r, m.c);
        if (A->rows * A->cols) violation("wrong-size", site, "%s: result is %dx%d, expected empty", what, A->rows, A->cols);
    }
    SpM g = read_back(site, A, order);
    auto by = [](const Ent &a, const Ent &b) { return a.j != b.j ? a.j < b.j : a.i < b.i; };
    std::vector<Ent> x = g.e, y = m.e;
    std::sort(x.begin(), x.end(), by); std::sort(y.begin(), y.end(), by);
    for (size_t k = 0; k < x.size() || k < y.size(); k++) {
        if (k >= x.size() || (k < y.size() && by(y[k], x[k]))) violation("wrong-result", site, "%s: entry (%d,%d) %.17g is missing", what, y[k].i, y[k].j, y[k].v);
        if (k >= y.size() || by(x[k], y[k])) violation("wrong-result", site, "%s: entry (%d,%d) %.17g does not belong there", what, x[k].i, x[k].j, x[k].v);
        if (memcmp(&x[k].v, &y[k].v, 8)) violation("wrong-result", site, "%s: entry (%d,%d) is %.17g instead of %.17g", what, x[k].i, x[k].j, x[k].v, y[k].v);
    }
    checked();
}
// close to the dense model, no position stored twice
static void close_to(const char *site, const char *what, const armas_sparse_t *A, const Mat &want, const Mat &scale, LD c, int order) {
    if (A->rows != want.r || A->cols != want.c) violation("wrong-size", site, "%s: result is %dx%d, expected %dx%d", what, A->rows, A->cols, want.r, want.c);
    SpM g = read_back(site, A, order);
    Mat d(want.r, want.c), seen(want.r, want.c);
    for (auto &x : g.e) { if (seen(x.i, x.j) != 0) violation("bad-structure", site, "%s: position (%d,%d) is stored twice", what, x.i, x.j); seen(x.i, x.j) = 1; d(x.i, x.j) = x.v; }
    check_close(site, what, d, want, scale, c);
}
// snapshot of a library matrix to prove that inputs are not changed
struct Snap {
    const armas_sparse_t *A; armas_sparse_t h; std::vector<char> b;
    void take(const armas_sparse_t *a) { A = a; h = *a; b.assign((char *)a->elems.v, (char *)a->elems.v + (a->elems.v ? a->__nbytes : 0)); }
    void same(const char *site, const char *what) const {
        if (A->elems.v != h.elems.v || A->ptr != h.ptr || A->ix != h.ix || A->rows != h.rows || A->cols != h.cols || A->nnz != h.nnz || A->kind != h.kind || A->nptr != h.nptr || A->size != h.size)
            violation("input-changed", site, "%s: header of an input matrix changed", what);
        if (b.size() && memcmp(b.data(), A->elems.v, b.size())) violation("input-changed", site, "%s: data of an input matrix changed", what);
    }
};
static void sp_alloc_fault(AllocFault &f) {
    memset(&f, 0, sizeof f);
    f.only_lib = true; f.only_tid = -1; f.maxsize = ~0ull;
    f.nth = P("nth", 1, 4); f.from = PF("from", .5);
}
static void sp_no_leak(u64 mark, const char *site, const char *what) {
    u64 pc = 0, size = 0, n = leaked_since(mark, &pc, &size);
    if (n) { R->pc[0] = pc; violation("leak", site, "%s: %llu blocks never returned (first: %llu bytes)", what, (unsigned long long)n, (unsigned long long)size); }
}
static int sp_dim(const char *n, int maxd) { int d = P(n, 0, maxd); return d == 0 && P("allow0", 0, 3) ? 1 : d; }

// ------------------------------------------------------------------ C13: a history of structural operations
static void sp_history(int maxd) {
    set_fill(P("fill", 0, 3)); set_align(P("align", 0, 1));
    u64 mark = alloc_mark();
    SpM m; gen_pattern(m, sp_dim("rows", maxd), sp_dim("cols", maxd), P("valcls", 0, 2), 0);
    bool faults = PF("faults", .5);
    describe("%dx%d nnz %zu %s| ", m.r, m.c, m.e.size(), faults ? "alloc faults " : "");
    // build by appending
    int cap = PC("cap", {0, 1, 5, 64, 200});
    auto arm = [&](AllocFault &f) { bool a = faults && PF("arm", .5); if (a) { sp_alloc_fault(f); alloc_fault(&f); } else alloc_fault(0); return a; };
    auto disarm = [&]() { u64 n = alloc_failed(); alloc_fault(0); if (n) nontrivial(); return n; };
    AllocFault f;
    arm(f);
    armas_sparse_t *A = armassp_new(m.r, m.c, cap, ARMASSP_COO);
    u64 nf = disarm();
    if (!A) { if (!nf) violation("false-failure", "armassp_new", "no matrix without any fault"); checked(); sp_no_leak(mark, "armassp_new", "failed allocation"); return; }
    if (nf) violation("false-success", "armassp_new", "matrix returned although an allocation failed");
    if (m.r && m.c) for (size_t k = 0; k < m.e.size();) {
        arm(f);
        int rc = armassp_append(A, m.e[k].i, m.e[k].j, m.e[k].v);
        nf = disarm();
        emit(rc);
        if (rc < 0) {
            if (!nf) violation("false-failure", "armassp_append", "append number %zu failed", k);
            SpM part = m; part.e.resize(k);
            same_entries("armassp_append", "after a failed append", A, part, 0);
            probe("append-failed");
            continue;
        }
        if (nf) violation("false-success", "armassp_append", "append succeeded although its allocation failed");
        k++;
    } else m.e.clear();
    same_entries("armassp_append", "appended", A, m, 0);
    if (PF("resize", .4) && m.r && m.c) {
        int ns = (int)m.e.size() + P("newsize", -2, 5);
        arm(f); int rc = armassp_resize(A, ns); nf = disarm();
        if (ns < (int)m.e.size() ? rc == 0 : rc != 0 && !nf) violation("error-return", "armassp_resize", "resize of %zu entries to %d returned %d", m.e.size(), ns, rc);
        same_entries("armassp_resize", "resized", A, m, 0);
        if (rc == 0 && A->size < ns) violation("bad-structure", "armassp_resize", "room for %d after resize to %d", A->size, ns);
    }
    std::vector<armas_sparse_t *> own{A};
    int steps = P("steps", 1, 8);
    armas_sparse_t *cur = A;     // represents m
    for (int s = 0; s < steps; s++) {
        Snap in; in.take(cur);
        int op = P("hop", 0, 9);
        const char *site = "?"; armas_sparse_t *res = 0; SpM want = m; bool created = false; int order = 0;
        int tk = P("target", 0, 1);
        nf = 0;
        bool emptydim = m.r == 0 || m.c == 0;
        if (op == 0) {
            site = "armassp_sort_to";
            armassp_order_t o = tk ? ARMASSP_ROW_ORDER : ARMASSP_COL_ORDER;
            int rc = armassp_sort_to(cur, o);
            if (rc) violation("error-return", site, "returned %d", rc);
            same_entries(site, "sorted", cur, m, cur->kind != ARMASSP_COO);
            if (cur->kind == ARMASSP_COO) for (int k = 1; k < cur->nnz; k++) {
                coo_elem_t a = cur->elems.ep[k - 1], b = cur->elems.ep[k];
                if (tk ? a.i > b.i || (a.i == b.i && a.j > b.j) : a.j > b.j || (a.j == b.j && a.i > b.i)) violation("bad-order", site, "(%d,%d) before (%d,%d) in %s order", a.i, a.j, b.i, b.j, tk ? "row" : "column");
            }
            continue;
        } else if (op == 1 || op == 2) {
            site = "armassp_convert"; arm(f); res = armassp_convert(cur, (armassp_type_enum)tk); nf = disarm(); created = true; order = 1;
        } else if (op == 3) {
            site = "armassp_mkcopy"; arm(f); res = armassp_mkcopy(cur); nf = disarm(); created = true;
        } else if (op == 4) {
            site = "armassp_transpose"; want = transposed(m); arm(f); res = armassp_transpose(cur); nf = disarm(); created = true;
            if (cur->kind == ARMASSP_COO) { if (res) violation("false-success", site, "transposed a coordinate list"); in.same(site, "refused"); continue; }
            order = 1;
        } else if (op >= 5 && op <= 7) {
            // into existing space: exact, larger, too small
            int spare = PC("spare", {0, 0, 1, 9, -1});
            int kind = op == 5 ? cur->kind : op == 6 ? tk : cur->kind;
            if (emptydim) continue;
            if (op == 7 && kind == ARMASSP_COO) continue;
            want = op == 7 ? transposed(m) : m;
            int room = (int)m.e.size() + spare; if (room < 0) room = 0;
            armas_sparse_t *T = sp_space(want.r, want.c, room, kind, "target");
            size_t need = armassp_bytes_needed(want.r, want.c, (int)m.e.size(), (armassp_type_enum)kind);
            bool fits = T->__nbytes >= need;
            site = op == 5 ? "armassp_copy_to" : op == 6 ? "armassp_convert_to" : "armassp_transpose_to";
            arm(f);
            res = op == 5 ? armassp_copy_to(T, cur) : op == 6 ? armassp_convert_to(T, cur, (armassp_type_enum)kind) : armassp_transpose_to(T, cur);
            nf = disarm();
            if (!fits) { if (res) violation("false-success", site, "%zu entries fit into %zu bytes", m.e.size(), T->__nbytes); in.same(site, "refused"); checked(); fault_fired(F_SMALL_WS); nontrivial(); continue; }
            if (!res && !nf) {
                // targets which are too small by their header only are refused, too
                violation("false-failure", site, "%s %dx%d %zu entries: failed with room for %d", kindname[cur->kind], m.r, m.c, m.e.size(), room);
            }
            if (res && res != T) violation("error-return", site, "returned another matrix");
            order = op != 5 || T->kind != ARMASSP_COO ? (op == 5 ? 0 : 1) : 0;
        } else if (op == 8) {
            site = "armassp_todense";
            if (emptydim) continue;
            Layout l = gen_layout(); Operand D; make_operand(D, "D", m.r, m.c, l);
            if (PF("nan", .5)) D.fill([](int, int) { return NAN; });
            D.save(); armas_conf_t cf = *armas_conf_default();
            int rc = armassp_todense(&D.m, cur, &cf);
            if (rc) violation("error-return", site, "returned %d", rc);
            D.check_outside(site); in.same(site, "to dense");
            Mat w = dense_of(m);
            for (int j = 0; j < m.c; j++) for (int i = 0; i < m.r; i++) if ((LD)D.at(i, j) != w(i, j)) violation("wrong-result", site, "element (%d,%d) is %.17g instead of %.17Lg", i, j, D.at(i, j), w(i, j));
            checked(); continue;
        } else {
            site = "armassp_hasdiag";
            int d = P("diag", -maxd - 1, maxd + 1), got = armassp_hasdiag(cur, d), cnt = 0;
            for (auto &x : m.e) if (x.j - x.i == d) cnt++;
            int len = m.r - abs(d); 
            int exp = m.r == m.c && len >= 0 && cnt == len;
            if (m.r == m.c && (len > 0 || (len == 0 && m.r)) && (got != 0) != (exp != 0)) violation("wrong-result", site, "%s %dx%d: diagonal %d has %d of %d entries, result %d", kindname[cur->kind], m.r, m.c, d, cnt, len, got);
            if (m.r != m.c && m.r && m.c && got) violation("wrong-result", site, "%dx%d has a diagonal", m.r, m.c);
            in.same(site, "test"); checked(); continue;
        }
        emit(res != 0);
        in.same(site, res ? "done" : "failed");
        if (!res) {
            if (!nf) violation("false-failure", site, "%s %dx%d with %zu entries: failed without any fault", kindname[cur->kind], m.r, m.c, m.e.size());
            checked(); continue;
        }
        if (created && nf) violation("false-success", site, "result returned although an allocation failed");
        same_entries(site, "result", res, want, order);
        if (created) own.push_back(res);
        m = want; cur = res;
        // size of an empty matrix is not kept by the library: nothing to continue with
        if (emptydim) break;
    }
    for (auto a : own) armassp_free(a);
    sp_no_leak(mark, "sparse", "history");
}
SCENARIO(C13, history, 3, FAST) { sp_history(P("big", 0, 3) ? 7 : 30); }
SCENARIO(C13, history_instr, 1, INSTR) { sp_history(7); }

// ------------------------------------------------------------------ C13: sparse-sparse add and multiply
static void sp_arith(int maxd) {
    set_fill(P("fill", 0, 3)); set_align(P("align", 0, 1));
    bool mult = PF("mult", .5);
    int kind = P("kind", 0, 1);
    bool ta = PF("ta", .45), tb = PF("tb", .45);
    int r = P("m", 1, maxd), c = P("n", 1, maxd), k = P("k", 1, maxd), cls = P("valcls", 0, 2);
    double alpha = gen_scalar("alpha"), beta = gen_scalar("beta");
    SpM a, b;
    if (mult) { gen_pattern(a, ta ? k : r, ta ? r : k, cls, 0); gen_pattern(b, tb ? c : k, tb ? k : c, cls, 0); }
    else { gen_pattern(a, ta ? c : r, ta ? r : c, cls, 0); gen_pattern(b, tb ? c : r, tb ? r : c, cls, 0); }
    armas_sparse_t *A = sp_lib(a, kind, "A", P("spa", 0, 2)), *B = sp_lib(b, kind, "B", P("spb", 0, 2));
    int bits = (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0);
    Mat da = dense_of(a), db = dense_of(b); if (ta) da = tr(da); if (tb) db = tr(db);
    Mat want = mult ? scaled(mul(da, db), alpha) : add(scaled(da, alpha), db, beta);
    Mat sc = mult ? scaled(mul(absm(da), absm(db)), fabsl(alpha)) : add(scaled(absm(da), fabsl(alpha)), absm(db), fabsl(beta));
    int nres = 0;
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) {
        bool on = false;
        if (mult) { for (int x = 0; x < k && !on; x++) { bool p = false, q = false; for (auto &e : a.e) if ((ta ? e.j == i && e.i == x : e.i == i && e.j == x)) p = true; if (p) for (auto &e : b.e) if ((tb ? e.i == j && e.j == x : e.j == j && e.i == x)) q = true; on = p && q; } }
        else { for (auto &e : a.e) if (ta ? e.j == i && e.i == j : e.i == i && e.j == j) on = true; for (auto &e : b.e) if (tb ? e.j == i && e.i == j : e.i == i && e.j == j) on = true; }
        nres += on;
    }
    Snap sa, sb; sa.take(A); sb.take(B);
    const char *site = mult ? "armassp_mult" : "armassp_add";
    char what[160]; snprintf(what, sizeof what, "%s %s%s%s %dx%dx%d alpha=%g beta=%g nnz %zu %zu -> %d", site, kindname[kind], ta ? " TRANSA" : "", tb ? " TRANSB" : "", r, c, k, alpha, beta, a.e.size(), b.e.size(), nres);
    describe("%s | ", what);
    armas_conf_t cf = *armas_conf_default();
    LD tol = 4.0L * (k + 8);
    u64 mark = alloc_mark();
    if (PF("alloc", .5)) {     // allocating form
        AllocFault f; bool fault = PF("arm", .5);
        if (fault) { sp_alloc_fault(f); alloc_fault(&f); } else alloc_fault(0);
        armas_sparse_t *C = mult ? armassp_mult(alpha, A, B, bits, &cf) : armassp_add(alpha, A, beta, B, bits, &cf);
        u64 nf = alloc_failed(); alloc_fault(0);
        emit(C != 0);
        sa.same(site, what); sb.same(site, what);
        if (!C) {
            if (!nf) violation("false-failure", site, "%s: no result (error %d)", what, cf.error);
            if (cf.error == 0) violation("error-code", site, "%s: failed with error code zero", what);
            checked(); nontrivial();
        } else {
            close_to(site, what, C, want, sc, tol, 1);
            if (C->kind != kind) violation("wrong-size", site, "%s: result is %s", what, kindname[C->kind]);
            armassp_free(C);
        }
        sp_no_leak(mark, site, what);
        return;
    }
    site = mult ? "armassp_multto_w" : "armassp_addto_w";
    int spare = PC("spare", {0, 0, 1, 7, -1});
    if (nres + spare < 0) spare = 0;
    armas_sparse_t *C = sp_space(r, c, nres + spare, kind, "C");
    armas_wbuf_t q = ARMAS_WBNULL;
    int rc = mult ? armassp_multto_w(C, alpha, A, B, bits, &q, &cf) : armassp_addto_w(C, alpha, A, beta, B, bits, &q, &cf);
    if (rc || !q.bytes) violation("query", site, "%s: workspace query returned %d, %zu bytes", what, rc, q.bytes);
    size_t need = q.bytes;
    int wk = P("wskind", 0, 5);    // 0 too small, 1 larger with offset, else exact
    size_t give = wk == 0 ? need - 1 - wrng.below(need) : wk == 1 ? need + 64 : need;
    if (give == 0) give = 1;
    char *wm = (char *)operand_mem(give, "workspace");
    int wf = (int)wrng.below(3);
    for (size_t x = 0; x < give; x++) wm[x] = wf == 0 ? 0 : wf == 1 ? (char)0x7f : (char)wrng.below(256);
    armas_wbuf_t wb; wb.buf = wm; wb.bytes = give; wb.offset = wk == 1 ? 64 : 0;
    armas_wbuf_t w0 = wb;
    alloc_fault(0); u64 ac = alloc_count();
    rc = mult ? armassp_multto_w(C, alpha, A, B, bits, &wb, &cf) : armassp_addto_w(C, alpha, A, beta, B, bits, &wb, &cf);
    emit(rc);
    if (alloc_count() != ac) violation("allocates", site, "%s: memory is allocated although a workspace is given", what);
    if (wb.buf != w0.buf || wb.bytes != w0.bytes || wb.offset != w0.offset) violation("workspace", site, "%s: workspace bookkeeping changed", what);
    if (wk == 1) for (int x = 0; x < 64; x++) if (wm[x] != (wf == 0 ? 0 : wf == 1 ? (char)0x7f : wm[x])) violation("workspace", site, "%s: bytes before the workspace position changed", what);
    sa.same(site, what); sb.same(site, what);
    if (wk == 0) {
        fault_fired(F_SMALL_WS); nontrivial();
        if (rc >= 0) violation("false-success", site, "%s: accepted %zu bytes of workspace, %zu are needed", what, give, need);
        if (cf.error != ARMAS_EWORK) violation("error-code", site, "%s: error %d for a too small workspace", what, cf.error);
        checked(); return;
    }
    if (spare < 0) {
        fault_fired(F_SMALL_WS); nontrivial();
        if (rc >= 0) violation("false-success", site, "%s: success without room for the result", what);
        if (cf.error == 0) violation("error-code", site, "%s: failed with error code zero", what);
        read_back(site, C, 0); checked(); return;
    }
    if (rc) violation("false-failure", site, "%s: returned %d error %d with room for %d", what, rc, cf.error, nres + spare);
    close_to(site, what, C, want, sc, tol, 1);
    sp_no_leak(mark, site, what);
}
SCENARIO(C13, arith, 3, FAST) { sp_arith(P("big", 0, 3) ? 7 : 24); }
SCENARIO(C13, arith_instr, 1, INSTR) { sp_arith(6); }

// ------------------------------------------------------------------ C13: sparse matrix times dense vector
static void sp_vector(int maxd) {
    set_fill(P("fill", 0, 3));
    int op = P("vop", 0, 3);
    static const char *names[] = {"armassp_mvmult", "armassp_mvmult_sym", "armassp_mvmult_trm", "armassp_mvsolve_trm"};
    const char *site = names[op];
    int kind = P("kind", 0, 1), r = P("m", 1, maxd), c = op ? r : P("n", 1, maxd), cls = P("valcls", 0, 1);
    bool trans = op != 1 && PF("trans", .5), upper = PF("upper", .5), unit = op >= 2 && PF("unit", .3), both = PF("both", .4);
    bool dflt = PF("default", .2);     // neither LOWER nor UPPER: lower
    if (dflt) upper = false;
    double alpha = gen_scalar("alpha"), beta = gen_scalar("beta");
    SpM a; gen_pattern(a, r, c, cls, op == 3 && !unit);
    if (op == 3) for (auto &e : a.e) { if (e.i == e.j) e.v = (2 + wrng.unit()) * (wrng.below(2) ? 1 : -1); else e.v *= 2.0 / r / (cls == 1 ? 4 : 1); }
    if (op && !both) { SpM t = a; t.e.clear(); for (auto &e : a.e) if (e.i == e.j || (upper ? e.i < e.j : e.i > e.j)) t.e.push_back(e); a = t; }
    if (op && both && PF("poison", .6)) for (auto &e : a.e) if (upper ? e.i > e.j : e.i < e.j) e.v = NAN, fault_fired(F_DIRTY_MEM), nontrivial();     // the other triangle is not referenced
    if (unit && PF("poison", .6)) for (auto &e : a.e) if (e.i == e.j) e.v = NAN, fault_fired(F_DIRTY_MEM), nontrivial();
    armas_sparse_t *A = sp_lib(a, kind, "A", P("spa", 0, 2));
    Layout l = gen_layout(); l.embed = PF("vembed", .5);
    int flags = (trans ? ARMAS_TRANS : 0) | (op && !dflt ? (upper ? ARMAS_UPPER : ARMAS_LOWER) : 0) | (unit ? ARMAS_UNIT : 0);
    char what[160]; snprintf(what, sizeof what, "%s %s %dx%d nnz %zu%s%s%s%s alpha=%g beta=%g", site, kindname[kind], r, c, a.e.size(), trans ? " TRANS" : "", op ? upper ? " UPPER" : " LOWER" : "", unit ? " UNIT" : "", both ? " full" : "", alpha, beta);
    describe("%s | ", what);
    Mat D = dense_of(a);
    if (op == 1) D = symm_from(D, upper);
    if (op >= 2) D = tri_of(D, flags | (dflt ? ARMAS_LOWER : 0));
    if (trans) D = tr(D);
    Snap sa; sa.take(A);
    Operand X, Y; make_operand(X, "x", D.c, 1, l); make_operand(Y, "y", D.r, 1, l);
    if (beta == 0 && op < 2 && PF("nan", .5)) { Y.fill([](int, int) { return NAN; }); fault_fired(F_DIRTY_MEM); nontrivial(); }
    armas_conf_t cf = *armas_conf_default();
    X.save(); Y.save();
    // a vector of the wrong length must be refused and left alone
    if (P("badlen", 0, 7) == 0) {
        Operand Z; make_operand(Z, "z", D.r + 1, 1, l); Z.save();
        int rc = op == 0 ? armassp_mvmult(beta, &Z.m, alpha, A, &X.m, flags, &cf) : op == 1 ? armassp_mvmult_sym(beta, &Z.m, alpha, A, &X.m, flags, &cf)
               : op == 2 ? armassp_mvmult_trm(&Z.m, alpha, A, flags, &cf) : armassp_mvsolve_trm(&Z.m, alpha, A, flags, &cf);
        if (rc >= 0 || cf.error == 0) violation("false-success", site, "%s: accepted a vector of length %d", what, D.r + 1);
        Z.check_unchanged(site); cf.error = 0; nontrivial();
    }
    u64 mark = alloc_mark(); alloc_fault(0);
    int rc = op == 0 ? armassp_mvmult(beta, &Y.m, alpha, A, &X.m, flags, &cf) : op == 1 ? armassp_mvmult_sym(beta, &Y.m, alpha, A, &X.m, flags, &cf)
           : op == 2 ? armassp_mvmult_trm(&X.m, alpha, A, flags, &cf) : armassp_mvsolve_trm(&X.m, alpha, A, flags, &cf);
    emit(rc);
    if (rc) violation("false-failure", site, "%s: returned %d error %d", what, rc, cf.error);
    if (alloc_count()) violation("allocates", site, "%s: allocates memory", what);
    sa.same(site, what);
    Mat x0 = X.saved(), y0 = Y.saved();
    LD tol = 4.0L * (D.c + 8);
    if (op < 2) {
        X.check_unchanged(site); Y.check_outside(site);
        if (beta == 0) y0 = Mat(D.r, 1);
        check_close(site, what, Y.mat(), add(scaled(y0, beta), mul(D, x0), alpha), add(scaled(absm(y0), fabsl(beta)), mul(absm(D), absm(x0)), fabsl(alpha)), tol);
    } else {
        X.check_outside(site);
        if (op == 2) check_close(site, what, X.mat(), scaled(mul(D, x0), alpha), scaled(mul(absm(D), absm(x0)), fabsl(alpha)), tol);
        else { Mat g = X.mat(); check_close(site, what, mul(D, g), scaled(x0, alpha), add(scaled(absm(x0), fabsl(alpha)), mul(absm(D), absm(g))), tol); }
    }
    emit_mem(op < 2 ? Y.base : X.base, 8 * (op < 2 ? Y.nel : X.nel));
    sp_no_leak(mark, site, what);
}
SCENARIO(C13, vector, 3, FAST) { sp_vector(P("big", 0, 3) ? 8 : 40); }
SCENARIO(C13, vector_instr, 1, INSTR) { sp_vector(8); }

// ------------------------------------------------------------------ C14: iterative solvers
enum { S_CG, S_PCG, S_CGNE, S_CGNR, S_GMRES, S_PGMRES };
static const char *sname[] = {"armassp_cgrad", "armassp_pcgrad", "armassp_cgne", "armassp_cgnr", "armassp_gmres", "armassp_pgmres"};
static LD dot(const Mat &a, const Mat &b) { LD s = 0; for (size_t k = 0; k < a.v.size(); k++) s += a.v[k] * b.v[k]; return s; }
static LD nrm(const Mat &a) { return sqrtl(dot(a, a)); }
// solution of a small square system, partial pivoting
static Mat ge_solve(Mat a, Mat b) {
    int n = a.r;
    for (int k = 0; k < n; k++) {
        int p = k; for (int i = k + 1; i < n; i++) if (fabsl(a(i, k)) > fabsl(a(p, k))) p = i;
        if (a(p, k) == 0) return Mat(0, 0);
        if (p != k) { for (int j = 0; j < n; j++) std::swap(a(p, j), a(k, j)); for (int j = 0; j < b.c; j++) std::swap(b(p, j), b(k, j)); }
        for (int i = k + 1; i < n; i++) { LD f = a(i, k) / a(k, k); if (f == 0) continue; for (int j = k; j < n; j++) a(i, j) -= f * a(k, j); for (int j = 0; j < b.c; j++) b(i, j) -= f * b(k, j); }
    }
    for (int j = 0; j < b.c; j++) for (int i = n - 1; i >= 0; i--) { LD s = b(i, j); for (int k = i + 1; k < n; k++) s -= a(i, k) * b(k, j); b(i, j) = s / a(i, i); }
    return b;
}
// random pattern; diagonally dominant by rows and columns
static void gen_system(SpM &a, int r, int c, bool sym, bool posdiag, double dom) {
    gen_pattern(a, r, c, 0, 1);
    if (sym) { SpM t; t.r = t.c = r; for (auto &e : a.e) { if (e.i > e.j) { t.e.push_back(e); t.e.push_back(Ent{e.j, e.i, e.v}); } else if (e.i == e.j) t.e.push_back(e); } a = t; }
    std::vector<double> rs(r, 0), cs(c, 0);
    for (auto &e : a.e) if (e.i != e.j) { rs[e.i] += fabs(e.v); cs[e.j] += fabs(e.v); }
    // rectangular: only the leading square part has a diagonal; lines outside of it are free
    for (auto &e : a.e) if (e.i == e.j) {
        double s = (rs[e.i] > cs[e.j] ? rs[e.i] : cs[e.j]);
        e.v = s * dom + 0.5 + wrng.unit();
        if (!posdiag && wrng.below(2)) e.v = -e.v;
    }
}
struct Sys { int s; SpM a; Mat A, b, x0, xs; SpM m; };

static void sp_solver(int maxd) {
    set_fill(P("fill", 0, 3)); set_align(P("align", 0, 1));
    int s = P("solver", 0, 5), kind = P("kind", 0, 1);
    bool pre = s == S_PCG || s == S_PGMRES, sym = s == S_CG || s == S_PCG, ne = s == S_CGNE || s == S_CGNR;
    int n = P("small", 0, 2) ? P("n", 1, maxd) : P("n", 1, 3), r = n, c = n;
    if (ne && PF("rect", .6)) { int d = P("extra", 0, maxd / 2); if (s == S_CGNE) c = n + d; else r = n + d; }
    double dom = 1 + 0.1 * P("dom", 1, 20);
    bool tridiag = pre && PF("tridiag", .25);
    SpM full; gen_system(full, r, c, sym, sym || PF("posdiag", .6), dom);
    if (tridiag) { std::vector<Ent> t; for (auto &e : full.e) if (abs(e.i - e.j) <= 1) t.push_back(e); full.e = t; }
    bool upper = sym && PF("upper", .5), both = PF("both", .4), dflt = sym && !upper && !pre && PF("default", .2);
    SpM a = full;
    auto in_tri = [&](const Ent &e) { return e.i == e.j || (upper ? e.i < e.j : e.i > e.j); };
    if (sym) { std::vector<Ent> t; for (auto e : full.e) { if (in_tri(e)) t.push_back(e); else if (both) { if (wrng.below(2)) e.v = NAN; t.push_back(e); } } a.e = t; }
    int flags = sym && !dflt ? upper ? ARMAS_UPPER : ARMAS_LOWER : 0;
    armas_sparse_t *A = sp_lib(a, kind, "A", P("spa", 0, 2));
    Mat D = dense_of(full);
    LD nA = fro(D);
    Layout l = gen_layout(); l.embed = PF("vembed", .5);
    armas_conf_t cf = *armas_conf_default();
    const char *site = sname[s];
    // ---- preconditioner
    armas_sparse_t *M = 0; armassp_precond_t pc; memset(&pc, 0x5a, sizeof pc);
    Mat Minv;
    if (pre) {
        SpM ms; ms.r = ms.c = n;
        for (auto &e : full.e) if (!sym || in_tri(e)) ms.e.push_back(e);
        const char *fsite = sym ? "armassp_init_icholz" : "armassp_init_iluz";
        // damaged matrices must be refused
        int dmg = P("damage", 0, 9);
        if (dmg == 0) {
            SpM bad = ms; int z = (int)wrng.below(n); std::vector<Ent> t; for (auto &e : bad.e) if (e.i != z || e.j != z) t.push_back(e); bad.e = t;
            armas_sparse_t *B = sp_lib(bad, kind, "Mbad");
            armassp_precond_t q; memset(&q, 0, sizeof q);
            int rc = sym ? armassp_init_icholz(&q, B, flags) : armassp_init_iluz(&q, B);
            if (rc >= 0) violation("false-success", fsite, "%s %dx%d: accepted a matrix without element (%d,%d)", kindname[kind], n, n, z, z);
            if (q.precond) violation("error-return", fsite, "preconditioner initialized although the factorization failed");
            probe("no-pivot"); nontrivial();
        } else if (dmg == 1) {
            SpM bad = ms; bad.c = n + 1;
            armas_sparse_t *B = sp_lib(bad, kind, "Mbad");
            armassp_precond_t q; memset(&q, 0, sizeof q);
            int rc = sym ? armassp_init_icholz(&q, B, flags) : armassp_init_iluz(&q, B);
            if (rc >= 0) violation("false-success", fsite, "accepted a %dx%d matrix", n, n + 1);
        }
        M = sp_lib(ms, kind, "M", P("spm", 0, 2));
        u64 ac = alloc_count();
        int rc = sym ? armassp_init_icholz(&pc, M, flags) : armassp_init_iluz(&pc, M);
        if (rc) violation("false-failure", fsite, "%s %dx%d: returned %d for a diagonally dominant matrix", kindname[kind], n, n, rc);
        if (alloc_count() != ac) violation("allocates", fsite, "allocates memory");
        SpM f = read_back(fsite, M, 1);
        if (f.e.size() != ms.e.size()) violation("bad-structure", fsite, "%zu entries became %zu", ms.e.size(), f.e.size());
        Mat F = dense_of(f), L, U, pr;
        if (sym) { L = upper ? tr(F) : F; U = tr(L); } else { L = tril(F, true); U = triu(F); }
        pr = mul(L, U); Mat sc = mul(absm(L), absm(U));
        for (auto &e : f.e) {
            LD d = fabsl(pr(e.i, e.j) - D(e.i, e.j)), lim = 4 * EPS * (n + 8) * (sc(e.i, e.j) + fabsl(D(e.i, e.j)));
            if (!(d <= lim)) violation("wrong-result", fsite, "%s %dx%d: product of the factors has %.17Lg at (%d,%d), the matrix %.17Lg", kindname[kind], n, n, pr(e.i, e.j), e.i, e.j, D(e.i, e.j));
        }
        checked();
        Minv = ge_solve(pr, ident(n));
        // the preconditioner solves with the product of its factors
        Operand z, v; make_operand(z, "z", n, 1, l); make_operand(v, "v", n, 1, l); v.save(); z.save();
        pc.precond(&z.m, &pc, &v.m, &cf);
        v.check_unchanged(fsite); z.check_outside(fsite);
        Mat g = z.mat();
        check_close(fsite, "preconditioner", mul(pr, g), v.mat(), add(absm(v.mat()), mul(sc, absm(g))), 8.0L * (n + 8));
    }
    // ---- right hand side, start
    Operand X, B; make_operand(X, "x", c, 1, l); make_operand(B, "b", r, 1, l);
    int start = P("start", 0, 4);
    if (start == 0) X.fill([](int, int) { return 0; });
    Mat xs;                                   // exact solution
    if (start == 1 || P("rhszero", 0, 19) == 0) {   // start at a solution (exact in floating point: x0 of small integers in one component)
        X.fill([](int, int) { return 0; });
        int k = (int)wrng.below(c);
        if (start == 1) X.at(k, 0) = 2;
        for (int i = 0; i < r; i++) B.at(i, 0) = (double)D(i, k) * X.at(k, 0);
    }
    Mat b = B.mat(), x0 = X.mat();
    double bscale = PC("bscale", {0, 0, 0, -200, 150});
    if (bscale && start != 1) { for (int i = 0; i < r; i++) B.at(i, 0) = ldexp(B.at(i, 0), (int)bscale); for (int i = 0; i < c; i++) X.at(i, 0) = ldexp(X.at(i, 0), (int)bscale); b = B.mat(); x0 = X.mat(); }
    Mat r0 = sub(b, mul(D, x0));
    LD nr0 = nrm(r0);
    if (s == S_CGNE) { Mat u = ge_solve(mul(D, tr(D)), r0); if (u.r) xs = add(x0, mul(tr(D), u)); }
    else if (s == S_CGNR) xs = ge_solve(mul(tr(D), D), mul(tr(D), b));
    else xs = ge_solve(D, b);
    if (!xs.r) harness_error("singular system generated");
    // ---- stopping criteria
    bool nul = PF("nullconf", .08);          // no configuration block: defaults, outputs in the default block
    armas_conf_t *cp = nul ? NULL : &cf;
    int mi = nul ? 0 : PC("maxiter", {0, 0, 0, 1, 2, 3, 5, -1});
    cf.maxiter = mi < 0 ? n : mi;
    int defmax = s == S_CG ? 4 * n : s == S_PCG ? 2 * n : ne ? 2 * r : 5 * n, maxiter = cf.maxiter > 0 ? cf.maxiter : defmax;
    int st = P("stopk", 0, 4);
    static const double mults[] = {0, 1e-3, 1e-6, 1e-8, 1e-12};
    double mult = nul ? 0 : mults[P("smult", 0, 4)];
    cf.smult = mult; cf.stop = 0;
    if (st == 0 && !nul) cf.stop = (double)(nr0 * mults[P("stopm", 1, 4)]);
    if (!(cf.stop > 0)) cf.stop = 0;
    LD crit = cf.stop > 0 ? (LD)cf.stop : (mult > 0 ? (LD)mult : (LD)EPS * (s == S_GMRES ? n : 1)) * nr0;
    bool gm = s == S_GMRES || s == S_PGMRES;
    cf.gmres_m = gm && !nul ? PC("gmres_m", {0, 0, 1, 2, 3, n, n + 5}) : 0;
    int gmm = !gm ? 1 << 30 : cf.gmres_m > 0 ? cf.gmres_m : 6;     // 6: GMRES_M
    cf.numiters = 7777; cf.residual = -1; cf.error = 0;
    char what[240]; snprintf(what, sizeof what, "%s %s %dx%d nnz %zu%s%s maxiter %d stop %.3g smult %.3g gmres_m %d start %d", site, kindname[kind], r, c, a.e.size(), upper ? " UPPER" : "", both && sym ? " full" : "", cf.maxiter, (double)cf.stop, mult, cf.gmres_m, start);
    describe("%s | ", what);
    X.save(); B.save(); Snap sa, sm; sa.take(A); if (M) sm.take(M);
    u64 mark = alloc_mark();
    auto plain = [&]() {
        switch (s) {
        case S_CG: return armassp_cgrad(&X.m, A, &B.m, flags, cp);
        case S_PCG: return armassp_pcgrad(&X.m, A, &B.m, &pc, flags, cp);
        case S_CGNE: return armassp_cgne(&X.m, A, &B.m, cp);
        case S_CGNR: return armassp_cgnr(&X.m, A, &B.m, cp);
        case S_GMRES: return armassp_gmres(&X.m, A, &B.m, cp);
        default: return armassp_pgmres(&X.m, A, &B.m, &pc, cp);
        }
    };
    auto with = [&](armas_wbuf_t *w) {
        switch (s) {
        case S_CG: return armassp_cgrad_w(&X.m, A, &B.m, flags, w, cp);
        case S_PCG: return armassp_pcgrad_w(&X.m, A, &B.m, &pc, flags, w, cp);
        case S_CGNE: return armassp_cgne_w(&X.m, A, &B.m, w, cp);
        case S_CGNR: return armassp_cgnr_w(&X.m, A, &B.m, w, cp);
        case S_GMRES: return armassp_gmres_w(&X.m, A, &B.m, w, cp);
        default: return armassp_pgmres_w(&X.m, A, &B.m, &pc, w, cp);
        }
    };
    int rc; u64 nf = 0; bool small = false;
    if (PF("plain", .4)) {
        AllocFault f; bool fault = PF("arm", .4);
        if (fault) { sp_alloc_fault(f); alloc_fault(&f); } else alloc_fault(0);
        rc = plain();
        nf = alloc_failed(); alloc_fault(0);
    } else {
        armas_wbuf_t q = ARMAS_WBNULL;
        if ((rc = with(&q)) || !q.bytes) violation("query", site, "%s: workspace query returned %d, %zu bytes", what, rc, q.bytes);
        X.check_unchanged(site);
        size_t need = q.bytes;
        int wk = P("wskind", 0, 5);
        if (wk == 0) small = true;
        size_t give = wk == 0 ? 1 + wrng.below(need - 1) : wk == 1 ? need + 64 : need;
        // GMRES uses a smaller space with less columns as long as it holds two
        char *wm = (char *)operand_mem(give, "workspace");
        int wf = (int)wrng.below(3);
        for (size_t x = 0; x < give; x++) wm[x] = wf == 0 ? 0 : (char)0xff;
        if (wf == 2) for (size_t x = 0; x < give; x++) wm[x] = (char)wrng.below(256);
        if (wf) fault_fired(F_DIRTY_MEM);
        armas_wbuf_t wb; wb.buf = wm; wb.bytes = give; wb.offset = wk == 1 ? 64 : 0; armas_wbuf_t w0 = wb;
        alloc_fault(0); u64 ac = alloc_count();
        rc = with(&wb);
        if (alloc_count() != ac) violation("allocates", site, "%s: memory is allocated although a workspace is given", what);
        if (wb.buf != w0.buf || wb.bytes != w0.bytes || wb.offset != w0.offset) violation("workspace", site, "%s: workspace bookkeeping changed", what);
    }
    if (nul) { armas_conf_t *d = armas_conf_default(); cf.numiters = d->numiters; cf.residual = d->residual; cf.error = d->error; probe("no-conf"); }
    emit(rc); emit_mem(X.base, 8 * X.nel);
    sa.same(site, what); if (M) sm.same(site, what); B.check_unchanged(site); X.check_outside(site);
    sp_no_leak(mark, site, what);
    if (small) { fault_fired(F_SMALL_WS); nontrivial(); }
    if (rc != 0 && rc != -ARMAS_ECONVERGE) {
        if (cf.error == 0) violation("error-code", site, "%s: returned %d with error code zero", what, rc);
        if (!nf && !small) violation("false-failure", site, "%s: returned %d error %d", what, rc, cf.error);
        if (small && cf.error != ARMAS_EWORK) violation("error-code", site, "%s: error %d for a too small workspace", what, cf.error);
        X.check_unchanged(site);
        if (nf) nontrivial();
        checked(); return;
    }
    if (nf) violation("false-success", site, "%s: returned %d although the workspace could not be allocated", what, rc);
    if (small && !gm) violation("false-success", site, "%s: a too small workspace is accepted", what);
    if (rc && cf.error != ARMAS_ECONVERGE) violation("error-code", site, "%s: returned %d with error code %d", what, rc, cf.error);
    // ---- iteration limit
    if (cf.numiters < 0 || cf.numiters > maxiter) violation("too-many-iterations", site, "%s: %d iterations, limit is %d", what, cf.numiters, maxiter);
    // ---- residual reported is the residual of the result
    Mat x = X.mat(), res = sub(b, mul(D, x));
    if (s == S_CGNR) res = mul(tr(D), res);
    LD nres = nrm(res), xm = nrm(x0) + nrm(xs) + nrm(x), scale = (nA * xm * 10 + nrm(b)) * (s == S_CGNR ? nA : 1);
    LD slack = 16 * EPS * (cf.numiters + n + 8) * scale + 1e-290L;
    if (!(fabsl(nres - (LD)cf.residual) <= slack)) violation("wrong-residual", site, "%s: residual %.6g is reported after %d iterations, it is %.6Lg", what, (double)cf.residual, cf.numiters, nres);
    checked();
    // ---- stopping criterion
    if (rc == 0 && !((LD)cf.residual <= crit * (1 + 1e-6L) + 16 * EPS * scale * (mult > 0 || cf.stop > 0 ? 0 : 1)))
        violation("criterion", site, "%s: success with residual %.6g, the criterion is %.6Lg", what, (double)cf.residual, crit);
    if (rc != 0 && (LD)cf.residual < crit * (1 - 1e-6L) && cf.numiters < maxiter) violation("false-failure", site, "%s: failure with residual %.6g after %d iterations, the criterion %.6Lg is satisfied", what, (double)cf.residual, cf.numiters, crit);
    if (rc == 0) probe("converged"); else { probe("not-converged"); nontrivial(); }
    // ---- never worse than the start
    auto err2 = [&](const Mat &y) { Mat d = sub(y, xs); return s == S_CG || s == S_PCG ? dot(d, mul(D, d)) : s == S_CGNE ? dot(d, d) : 0; };
    LD e0 = 0, e1 = 0;
    if (s == S_CG || s == S_PCG || s == S_CGNE) { e0 = sqrtl(fabsl(err2(x0))); e1 = sqrtl(fabsl(err2(x))); if (s != S_CGNE) { e0 *= sqrtl(nA); e1 *= sqrtl(nA); } else { e0 *= nA; e1 *= nA; } }
    else { e0 = nr0; e1 = nrm(sub(b, mul(D, x))); if (s == S_CGNR) { Mat rs = sub(b, mul(D, xs)); e0 = sqrtl(fabsl(e0 * e0 - dot(rs, rs))); e1 = sqrtl(fabsl(e1 * e1 - dot(rs, rs))); } }
    LD eslack = s == S_CGNR ? sqrtl(16 * EPS * (n + 8)) * (nr0 + nA * xm) : 16 * EPS * (cf.numiters + n + 8) * (nA * xm * 10 + nrm(b)) + 1e-290L;
    // (iterations continued below the rounding errors of the residual are not bounded)
    bool reach = crit >= 64 * EPS * (n + 8) * scale;
    if (reach && !(e1 <= e0 * (1 + 1e-9L) + eslack)) violation("diverged", site, "%s: error %.6Lg after %d iterations, it was %.6Lg at the start", what, e1, cf.numiters, e0);
    // ---- full number of steps solves well conditioned systems
    bool finite = gm ? gmm >= n && !small : true;
    LD relcrit = nr0 > 0 ? crit / nr0 : 1;
    if (s == S_CGNR) relcrit /= nA > 1 ? nA : 1;
    if (rc != 0 && cf.maxiter == 0 && finite && dom >= 1.5 && (r == n && c == n) && relcrit >= 1e-8L && nr0 > 1e-200L && n > 0) {
        if (!(ne && n > 12)) violation("no-progress", site, "%s: not converged after %d iterations (residual %.3g, criterion %.3Lg)", what, cf.numiters, (double)cf.residual, crit);
    }
    // ---- the first iterations are those of the method: optimal over the Krylov space
    int k = cf.numiters;
    if (k >= 1 && k <= 4 && k <= gmm && !small && nr0 > 1e-100L) {
        Mat V(c, k), w = r0, At = tr(D);
        auto prec = [&](const Mat &y) { return pre ? mul(Minv, y) : y; };
        if (s == S_PCG) w = prec(r0); else if (ne) w = mul(At, r0); else if (s == S_PGMRES) w = prec(r0);
        int kk = 0; LD cond = 1;
        for (int q = 0; q < k; q++) {
            LD before = nrm(w);
            for (int t = 0; t < 2; t++) for (int j = 0; j < kk; j++) { LD d = 0; for (int i = 0; i < c; i++) d += V(i, j) * w(i, 0); for (int i = 0; i < c; i++) w(i, 0) -= d * V(i, j); }
            LD nw = nrm(w);
            if (!(nw > 1e-5L * before)) { cond = 0; break; }      // nearly exhausted space: the comparison would be of rounding errors
            for (int i = 0; i < c; i++) V(i, kk) = w(i, 0) / nw;
            kk++;
            Mat v(c, 1); for (int i = 0; i < c; i++) v(i, 0) = V(i, kk - 1);
            w = s == S_CG || s == S_GMRES ? mul(D, v) : s == S_PCG || s == S_PGMRES ? prec(mul(D, v)) : mul(At, mul(D, v));
        }
        if (cond > 0 && kk == k) {
            Mat G, h;
            if (s == S_CG || s == S_PCG) { G = mul(tr(V), mul(D, V)); h = mul(tr(V), r0); }
            else if (s == S_CGNE) { G = ident(k); h = mul(tr(V), sub(xs, x0)); }
            else { Mat AV = mul(D, V); G = mul(tr(AV), AV); h = mul(tr(AV), r0); }
            Mat y = ge_solve(G, h);
            if (y.r) {
                Mat xr = add(x0, mul(V, y));
                LD d = nrm(sub(x, xr)), lim = 1e-7L * (nrm(sub(xs, x0)) + nrm(sub(xr, x0))) + 1e-12L * xm + 1e-290L;
                if (s == S_GMRES || s == S_PGMRES) {     // compare what is minimised
                    LD ra = nrm(sub(b, mul(D, x))), rb = nrm(sub(b, mul(D, xr)));
                    d = ra - rb; lim = 1e-9L * nr0 + slack;
                }
                if (!(d <= lim)) violation("wrong-result", site, "%s: after %d iterations the result is not the best one of the Krylov space (difference %.3Lg, allowed %.3Lg)", what, k, d, lim);
                checked(); probe("optimal");
            }
        }
    }
    // exact factors: one step is enough
    if (pre && tridiag && rc == 0 && relcrit >= 1e-10L && cf.numiters > 1) {
        Mat pr = ge_solve(Minv, ident(n));
        if (maxabs(sub(pr, D)) <= 1e-12L * nA && dom >= 1.3) violation("precond", site, "%s: %d iterations with an exact preconditioner", what, cf.numiters);
    }
}
SCENARIO(C14, solvers, 3, FAST) { sp_solver(P("big", 0, 3) ? 8 : 40); }
SCENARIO(C14, solvers_instr, 1, INSTR) { sp_solver(8); }
