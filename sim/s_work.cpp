// C09: explicit workspaces and caller provided block buffers.
#include "callop.h"
using namespace sim;

namespace {
struct WS { armas_wbuf_t w; size_t off, n; std::vector<u8> head; };
// n free bytes after `off` used ones
void make_ws(WS &s, size_t off, size_t n, int fill) {
    ws_make(s.w, off + n, fill);
    s.off = off; s.n = n;
    s.w.offset = off;
    s.head.assign(s.w.buf, s.w.buf + off);
    if (fill) fault_fired(F_DIRTY_MEM);
}
void check_ws(const WS &s, const DOp &op, const char *when) {
    if (s.w.offset != s.off) violation("workspace-position", op.name.c_str(), "%s: position of the workspace is %zu %s, it was %zu", op.desc.c_str(), s.w.offset, when, s.off);
    if (s.w.bytes != s.off + s.n) violation("workspace-size", op.name.c_str(), "%s: size of the workspace changed from %zu to %zu", op.desc.c_str(), s.off + s.n, s.w.bytes);
    if (s.off && memcmp(s.head.data(), s.w.buf, s.off)) violation("workspace-used-part", op.name.c_str(), "%s: the part of the workspace that was already in use has changed", op.desc.c_str());
}
void same(const DOp &op, const std::vector<double> &a, const std::vector<double> &b, const char *what) {
    if (a.size() == b.size() && !memcmp(a.data(), b.data(), a.size() * 8)) { checked(); return; }
    for (size_t i = 0; i < a.size(); i++) if (memcmp(&a[i], &b[i], 8)) violation("depends-on-contents", op.name.c_str(), "%s: result value %zu is %.17g or %.17g, depending on %s", op.desc.c_str(), i, a[i], b[i], what);
    violation("depends-on-contents", op.name.c_str(), "%s: result depends on %s", op.desc.c_str(), what);
}
size_t gen_off() { return 8 * (size_t)PC("off", {0, 0, 1, 3, 8, 40}); }
}

static void workspace(int groups, int maxd) {
    Layout l = gen_layout();
    set_fill(P("fill", 0, 3)); set_align(P("align", 0, 1));
    DOp op; gen_op(op, groups, l, maxd);
    describe("%s | ", op.desc.c_str());
    Env e; gen_blk_env(e);
    armas_conf_t cf = *armas_conf_default();
    if (op.setup_conf) op.setup_conf(&cf);
    WS bb; bool own = PF("blockbuf", .35);
    if (own) {   // block buffer provided by the caller
        size_t n = armas_getenv()->cmem;
        switch (P("bbsize", 0, 4)) { case 0: break; case 1: n += 8 * wrng.below(20); break; case 2: n += 64; break; case 3: n *= 2; break; case 4: n = 8 * wrng.below(n / 8 + 1); break; }
        make_ws(bb, gen_off(), n, P("bbfill", 0, 3));
        cf.work = &bb.w;
        describe("conf.work %zu ", n);
    } else if (PF("local", .3)) { cf.optflags |= ARMAS_CBUF_LOCAL; describe("CBUF_LOCAL "); }
    if (!op.callw) {   // only the block buffer is of interest
        int rc = op.call(&cf);
        if (!op.ok(rc)) violation("error-return", op.name.c_str(), "%s returned %d (error %d)", op.desc.c_str(), rc, cf.error);
        op.check(rc);
        auto r1 = op.result();
        op.restore();
        if (own) { check_ws(bb, op, "after the call"); for (size_t k = bb.off; k < bb.w.bytes; k++) bb.w.buf[k] = (char)wrng.below(256); }
        rc = op.call(&cf);
        if (!op.ok(rc)) violation("error-return", op.name.c_str(), "%s returned %d (error %d) the second time", op.desc.c_str(), rc, cf.error);
        op.check(rc);
        same(op, r1, op.result(), "previous contents of the block buffer");
        if (own) { check_ws(bb, op, "after the second call"); nontrivial(); }
        check_heap();
        return;
    }
    size_t need = ws_query(op, &cf);
    for (auto &o : op.all) o->check_unchanged((op.name + " (query)").c_str());
    if (ws_query(op, &cf) != need) violation("query", op.name.c_str(), "%s: two workspace queries return different sizes", op.desc.c_str());
    // exactly the queried size, twice, with different contents and position
    WS a; make_ws(a, gen_off(), need, P("wfill", 0, 3));
    int rc = op.callw(need || a.off ? &a.w : ARMAS_NOWORK, &cf);
    if (!op.ok(rc)) violation("error-return", op.name.c_str(), "%s returned %d (error %d) with a workspace of the queried size %zu", op.desc.c_str(), rc, cf.error, need);
    op.check(rc); check_ws(a, op, "after the call");
    if (own) check_ws(bb, op, "(conf.work) after the call");
    auto ra = op.result();
    op.restore();
    if (own) for (size_t k = bb.off; k < bb.w.bytes; k++) bb.w.buf[k] = (char)wrng.below(256);
    if (PF("samews", .4)) { for (size_t k = a.off; k < a.w.bytes; k++) a.w.buf[k] = (char)wrng.below(256); }
    else make_ws(a, gen_off(), need, P("wfill", 0, 3));
    rc = op.callw(need || a.off ? &a.w : ARMAS_NOWORK, &cf);
    if (!op.ok(rc)) violation("error-return", op.name.c_str(), "%s returned %d (error %d) with a workspace of the queried size, the second time", op.desc.c_str(), rc, cf.error);
    op.check(rc); check_ws(a, op, "after the call");
    same(op, ra, op.result(), "previous contents of the workspace");
    if (need) nontrivial();
    // smaller, or larger
    int ns = P("smaller", 1, 3);
    for (int k = 0; k < ns; k++) {
        op.restore();
        size_t n = 0;
        switch (P("smode", 0, 5)) {
        case 0: n = need ? wrng.below(need) : 0; break;
        case 1: n = need >= 8 ? need - 8 : 0; break;
        case 2: { size_t r = op.out[0]->m.rows, c = op.out[0]->m.cols; n = 8 * (r + c) * (1 + wrng.below(3)); break; }
        case 3: { size_t r = op.out[0]->m.rows; n = 8 * r * (1 + wrng.below(12)); break; }
        case 4: n = need ? 8 * wrng.below(need / 8 + 1) : 0; break;
        case 5: n = need + wrng.below(400); break;
        }
        WS s; make_ws(s, gen_off(), n, P("wfill", 0, 3));
        if (n < need) fault_fired(F_SMALL_WS);
        cf.error = 0;
        rc = op.callw(s.w.bytes ? &s.w : ARMAS_NOWORK, &cf);
        check_ws(s, op, op.ok(rc) ? "after the call" : "after the refused call");
        if (op.ok(rc)) { op.check(rc); probe(n < need ? "small-accepted" : "larger"); }
        else {
            if (n >= need) violation("error-return", op.name.c_str(), "%s returned %d (error %d) with a workspace of %zu bytes, the query says %zu", op.desc.c_str(), rc, cf.error, n, need);
            if (rc > 0 || cf.error == 0) violation("error-code", op.name.c_str(), "%s refused a workspace of %zu bytes with return value %d and error code %d", op.desc.c_str(), n, rc, cf.error);
            op.frame(); checked(); probe("refused");
        }
    }
    check_heap();
}
SCENARIO(C09, lapack, 4, FAST) { workspace(G_FACT | G_EIG, 40); }
SCENARIO(C09, large, 1, FAST) { workspace(G_FACT | G_EIG, 90); }
SCENARIO(C09, basic, 2, FAST) { workspace(G_BLAS | G_EXT, 48); }
SCENARIO(C09, lapack_instr, 2, INSTR) { workspace(G_FACT | G_EIG, 16); }
SCENARIO(C09, basic_instr, 1, INSTR) { workspace(G_BLAS | G_EXT, 14); }
