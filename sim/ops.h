// Table of dense operations: generator of operands, call (with and without explicit workspace), oracle.
#ifndef SIM_OPS_H
#define SIM_OPS_H
#include "ref.h"
#include <memory>

struct Piv {
    armas_pivot_t p; int *idx = 0; int n = 0; std::vector<int> snap; std::string name;
    void save() { snap.assign(idx, idx + n); }
    void restore() { if (n) memcpy(idx, snap.data(), n * sizeof(int)); }
};

struct DOp {
    std::string name, desc;
    std::vector<std::shared_ptr<Operand>> all;
    std::vector<Operand *> in, out;          // out: the operation may write inside the view
    struct Keep { Operand *o; int tri; };    // strictly lower (ARMAS_LOWER) / upper part of an output that must not change
    std::vector<Keep> keep;
    std::vector<std::shared_ptr<Piv>> pall;
    std::vector<Piv *> pin, pout;
    std::vector<std::shared_ptr<double>> scal;   // scalar results
    std::function<int(armas_conf_t *)> call;
    std::function<int(armas_wbuf_t *, armas_conf_t *)> callw;
    std::function<void(int)> verify;         // results are right (the call returned rc >= 0)
    std::function<void(armas_conf_t *)> setup_conf;
    bool pos_ok = false;                     // positive return values are a success
    bool iterative = false;
    double flops = 0;

    Operand &mk(const char *n, int r, int c, const Layout &l, bool output) {
        all.push_back(std::make_shared<Operand>());
        Operand &o = *all.back();
        make_operand(o, n, r, c, l);
        (output ? out : in).push_back(&o);
        return o;
    }
    Operand &mkv(const char *n, int len, const Layout &l, bool output, int allow_row = 0) {
        all.push_back(std::make_shared<Operand>());
        Operand &o = *all.back();
        make_vector(o, n, len, l, allow_row);
        (output ? out : in).push_back(&o);
        return o;
    }
    Piv &mkp(const char *n, int len, bool output) {
        pall.push_back(std::make_shared<Piv>());
        Piv &p = *pall.back();
        p.n = len; p.name = n;
        p.idx = (int *)sim::operand_mem((len ? len : 1) * sizeof(int), n);
        for (int i = 0; i < len; i++) p.idx[i] = 0;
        armas_pivot_make(&p.p, len, p.idx);
        (output ? pout : pin).push_back(&p);
        return p;
    }
    void save() { for (auto &o : all) o->save(); for (auto &p : pall) p->save(); }
    void restore() { for (auto &o : all) o->restore(); for (auto &p : pall) p->restore(); }
    void frame() const {
        for (auto *o : in) o->check_unchanged(name.c_str());
        for (auto *o : out) o->check_outside(name.c_str());
        for (auto *p : pin) if (p->n && memcmp(p->idx, p->snap.data(), p->n * sizeof(int)))
            sim::violation("input-changed", p->name.c_str(), "%s: the input pivot vector changed", desc.c_str());
    }
    void frame_keep() const {
        for (auto &k : keep) for (int j = 0; j < k.o->m.cols; j++) for (int i = 0; i < k.o->m.rows; i++) if (k.tri == ARMAS_LOWER ? i > j : i < j) {
            double a = k.o->at(i, j), b = k.o->snap[(size_t)(k.o->c0 + j) * k.o->step + k.o->r0 + i];
            if (memcmp(&a, &b, 8)) sim::violation("unreferenced-part", name.c_str(), "%s: element (%d,%d) of the part of %s that is not referenced changed from %.17g to %.17g", desc.c_str(), i, j, k.o->name.c_str(), b, a);
        }
    }
    // complete output as one byte string, to compare two executions
    std::vector<double> result() const {
        std::vector<double> v;
        for (auto *o : out) for (int j = 0; j < o->m.cols; j++) for (int i = 0; i < o->m.rows; i++) v.push_back(o->at(i, j));
        for (auto *p : pout) for (int i = 0; i < p->n; i++) v.push_back(p->idx[i]);
        for (auto &s : scal) v.push_back(*s);
        return v;
    }
    bool ok(int rc) const { return rc == 0 || (pos_ok && rc > 0); }
    void check(int rc) {
        frame(); frame_keep();
        verify(rc);
        sim::checked();
    }
};

enum { G_BLAS = 1, G_EXT = 2, G_FACT = 4, G_EIG = 8, G_L2 = 16 /* vector and matrix-vector part of G_BLAS */, G_LEVEL = 32, G_COMPAT = 64 };
struct OpDef { const char *name; int group; void (*gen)(DOp &, const Layout &, int maxd); };
extern const OpDef op_defs[], level_defs[], compat_defs[];
extern const int n_op_defs, n_level_defs, n_compat_defs;
// picks an operation of the groups; name is logged as parameter "op"
inline bool op_reshaped;     // an operand has another size than the operation was generated for (C21)
void gen_op(DOp &op, int groups, const Layout &l, int maxd);
#endif
