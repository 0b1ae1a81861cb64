// C12, C16, C18: factorisations, solvers, eigenvalues and singular values under any tuning, workspace, accelerator and schedule.
#include "callop.h"
using namespace sim;

static void lapack_result(int groups, int maxd, bool accel) {
    op_result([&](DOp &op, const Layout &l) { gen_op(op, groups, l, maxd); }, maxd, accel);
}
// a computation writes to no stream, whatever its operands, tuning, workspace and failing allocations are
SCENARIO(C20, silent, 1, FAST) {
    u64 out0 = stdout_calls;
    lapack_result(PC("group", {G_BLAS, G_EXT, G_FACT, G_EIG, G_L2, G_LEVEL, G_COMPAT}), 40, true);
    if (stdout_calls != out0) violation("stray-output", "computation", "%s wrote to a standard stream", R->desc);
}
SCENARIO(C12, results, 3, FAST) { lapack_result(G_FACT, 48, true); }
SCENARIO(C12, results_large, 1, FAST) { lapack_result(G_FACT, 100, true); }
SCENARIO(C12, results_instr, 1, INSTR) { lapack_result(G_FACT, 16, true); }
SCENARIO(C16, results, 3, FAST) { lapack_result(G_EIG, 40, true); }
SCENARIO(C16, results_large, 1, FAST) { lapack_result(G_EIG, 90, true); }
SCENARIO(C16, results_instr, 1, INSTR) { lapack_result(G_EIG, 14, true); }
SCENARIO(C18, results, 3, FAST) { lapack_result(G_L2 | G_LEVEL, 60, true); }
SCENARIO(C18, results_large, 1, FAST) { lapack_result(G_L2 | G_LEVEL, 200, true); }
SCENARIO(C18, results_instr, 1, INSTR) { lapack_result(G_L2 | G_LEVEL, 20, true); }
SCENARIO(C19, results, 3, FAST) { lapack_result(G_COMPAT, 60, false); }
SCENARIO(C19, results_large, 1, FAST) { lapack_result(G_COMPAT, 200, false); }
SCENARIO(C19, results_instr, 1, INSTR) { lapack_result(G_COMPAT, 20, false); }

// Random values over a history of seeding and drawing: the same seed gives the same values again, in whatever way they are drawn.
SCENARIO(C18, random, 1, FAST) {
    set_fill(P("fill", 0, 3));
    Layout l = gen_layout();
    struct Draw { int kind, n; };
    std::vector<Draw> plan; int np = P("draws", 1, 12);
    for (int i = 0; i < np; i++) plan.push_back({(int)wrng.below(4), 1 + (int)wrng.below(40)});
    long seed = PC("seed", {1, 2, 3, 1000, 77777, -5, 1 << 30});
    bool early = PF("unseeded", .4);   // values are drawn before any seed has been set
    auto run = [&](std::vector<double> &v) {
        for (auto &d : plan) {
            if (d.kind == 0) for (int i = 0; i < d.n; i++) { double x = armas_uniform(); if (!(x >= 0 && x < 1)) violation("wrong-result", "uniform", "value %.17g", x); v.push_back(x); }
            if (d.kind == 1) for (int i = 0; i < d.n; i++) { double x = armas_normal(); if (!(fabs(x) < 40)) violation("wrong-result", "normal", "value %.17g", x); v.push_back(x); }
            if (d.kind >= 2) {
                Operand A; int c = 1 + (int)(d.n % 5);
                make_operand(A, "A", d.n, c, l);
                A.fill([](int, int) { return -1e9; }); A.save();
                int rc = armas_set_values(&A.m, d.kind == 2 ? armas_uniform_at : armas_normal_at, 0);
                if (rc) violation("error-return", "set_values", "returned %d", rc);
                A.check_outside("set_values");
                for (int j = 0; j < c; j++) for (int i = 0; i < d.n; i++) {
                    double x = A.at(i, j);
                    if (d.kind == 2 ? !(x >= 0 && x < 1) : !(fabs(x) < 40)) violation("wrong-result", "set_values", "element (%d,%d) is %.17g", i, j, x);
                    v.push_back(x);
                }
            }
        }
    };
    std::vector<double> first, again, other;
    if (early) { std::vector<double> v; run(v); if (!armas_seed(0)) violation("wrong-result", "seed", "values were drawn without a seed"); }
    if (armas_seed(seed) != seed || armas_seed(0) != seed) violation("wrong-result", "seed", "seed %ld is reported as %ld", seed, armas_seed(0));
    run(first);
    if (PF("more", .5)) { std::vector<double> v; run(v); if (v == first && first.size() > 2) violation("wrong-result", "seed", "values repeat without a new seed"); }
    armas_seed(seed + 1); run(other);
    armas_seed(seed); run(again);
    if (first.size() != again.size()) harness_error("lengths");
    for (size_t i = 0; i < first.size(); i++) if (memcmp(&first[i], &again[i], 8)) violation("wrong-result", "seed", "value %zu after seed %ld is %.17g the first and %.17g the second time", i, seed, first[i], again[i]);
    if (first.size() > 2 && first == other) violation("wrong-result", "seed", "different seeds give the same values");
    // moments, with limits far outside of what chance allows
    armas_seed(seed);
    double su = 0, sn = 0, sq = 0; const int N = 1000;
    for (int i = 0; i < N; i++) { su += armas_uniform(); double x = armas_normal(); sn += x; sq += x * x; }
    if (fabs(su / N - .5) > 0.1 || fabs(sn / N) > 0.3 || fabs(sq / N - 1) > 0.5) violation("wrong-result", "distribution", "mean of uniform values %g, mean and square of normal values %g, %g", su / N, sn / N, sq / N);
    checked(); nontrivial(); check_heap();
}
