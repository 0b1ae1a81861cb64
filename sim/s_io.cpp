// C10 (JSON), C11 (Matrix Market) and C20 (text output): streams under fault injection.
#include "armas_sim.h"
#include "ref.h"
#include <string>
#include <vector>
extern "C" void armas_ios_wbuf(armas_iostream_t *ios, struct armas_wbuf *wb);   // not in the header
using namespace sim;

// ------------------------------------------------------------------------------------------------
// A simulated byte stream: content, position and a fault plan.
// ------------------------------------------------------------------------------------------------
enum { SF_NONE, SF_READ_EOF, SF_READ_ERR, SF_WRITE_ERR, SF_WRITE_FULL, SF_WRITE_ONCE };
struct SimStream {
    std::string d;
    size_t pos = 0;
    int fault = SF_NONE; size_t at = 0; bool fired = false, sticky = false;   // sticky: nothing is accepted any more after the fault
    size_t chunk = 0;               // bytes per underlying transfer (0: no limit)
    u64 ends = 0;                   // how often end of data or an error was reported
    void hit(FaultKind k) { if (!fired) fault_fired(k); fired = true; }
    long rd(char *b, size_t n) {
        if (chunk && n > chunk) n = chunk;
        size_t lim = d.size();
        if ((fault == SF_READ_EOF || fault == SF_READ_ERR) && at < lim) lim = at;
        if (pos >= lim) {
            if (++ends > 200) violation("hang", "read", "the stream was read %llu times after its end", (unsigned long long)ends);
            if (lim < d.size()) {
                hit(fault == SF_READ_EOF ? F_READ_EOF : F_READ_ERR);
                if (fault == SF_READ_ERR) { errno = EIO; return -1; }
            }
            return 0;
        }
        if (n > lim - pos) n = lim - pos;
        memcpy(b, d.data() + pos, n); pos += n;
        return (long)n;
    }
    long wr(const char *b, size_t n) {
        if (sticky && fired) { errno = EIO; return -1; }
        if (chunk && n > chunk && fault >= SF_WRITE_ERR) n = chunk;
        if (fault >= SF_WRITE_ERR && d.size() + n > at) {
            size_t room = at > d.size() ? at - d.size() : 0;
            if (fault == SF_WRITE_ONCE && fired) { d.append(b, n); return (long)n; }
            hit(fault == SF_WRITE_FULL ? F_SHORT_WRITE : F_WRITE_ERR);
            if (fault == SF_WRITE_FULL && room) { d.append(b, room); errno = ENOSPC; return (long)room; }
            errno = fault == SF_WRITE_FULL ? ENOSPC : EIO;
            return -1;
        }
        d.append(b, n);
        return (long)n;
    }
};
static ssize_t ck_read(void *c, char *b, size_t n) { return ((SimStream *)c)->rd(b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    // a file retries short writes until an error
    size_t done = 0;
    while (done < n) { long r = ((SimStream *)c)->wr(b + done, n - done); if (r <= 0) break; done += r; }
    return done;
}
static FILE *open_sim(SimStream *s, const char *mode, int buf) {
    cookie_io_functions_t f = {ck_read, ck_write, NULL, NULL};
    FILE *fp = fopencookie(s, mode, f);
    if (!fp) harness_error("fopencookie");
    if (buf == 0) setvbuf(fp, NULL, _IONBF, 0);
    else setvbuf(fp, (char *)harness_alloc(buf + 8), _IOFBF, buf);
    return fp;
}
// the library's own stream type on top of it
static int vt_get(void *p) { char c; return ((SimStream *)p)->rd(&c, 1) == 1 ? (unsigned char)c : -1; }
static void vt_unget(void *p, int c) {
    SimStream *s = (SimStream *)p;
    if (!s->pos) violation("bad-unget", "armas_ios_ungetchar", "character %d pushed back before the first one was read", c);
    if ((unsigned char)s->d[s->pos - 1] != (unsigned char)c) violation("bad-unget", "armas_ios_ungetchar", "character %d pushed back after %d was read", c, (unsigned char)s->d[s->pos - 1]);
    s->pos--;
}
static int vt_put(void *p, int c) { char b = (char)c; return ((SimStream *)p)->wr(&b, 1) == 1 ? (unsigned char)c : -1; }
static armas_iostream_vtable_t sim_vt = {vt_get, vt_unget, vt_put, 0};

enum { K_FILE, K_VT, K_WBUF, K_STRING };
static const char *kname[] = {"file", "stream", "buffer", "string"};

// an open stream of one of the kinds, for reading
struct Reader {
    int kind; SimStream *s; FILE *fp = 0; armas_iostream_t ios; struct armas_wbuf wb; char *mem = 0;
    void open(int k, SimStream *st, int buf) {
        kind = k; s = st; memset(&ios, 0, sizeof ios);
        size_t n = s->d.size();
        if ((s->fault == SF_READ_EOF || s->fault == SF_READ_ERR) && s->at < n && k >= K_WBUF) { n = s->at; s->hit(F_READ_EOF); }
        switch (k) {
        case K_FILE: fp = open_sim(s, "r", buf); armas_ios_file(&ios, fp); break;
        case K_VT: armas_ios_init(&ios, &sim_vt, s); break;
        case K_WBUF:
            mem = (char *)operand_mem(n ? n : 1, "json buffer"); memcpy(mem, s->d.data(), n);
            wb.buf = mem; wb.bytes = n; wb.offset = 0;
            armas_ios_wbuf(&ios, &wb); break;
        case K_STRING:
            mem = (char *)operand_mem(n ? n : 1, "json string"); memcpy(mem, s->d.data(), n);
            armas_ios_string(&ios, mem, (int)n); break;
        }
    }
    void close() { armas_ios_close(&ios); if (fp) fclose(fp); fp = 0; }
    bool unchanged(size_t n) { return !mem || !memcmp(mem, s->d.data(), n); }
};

// ------------------------------------------------------------------------------------------------
// The dense matrices to transfer
// ------------------------------------------------------------------------------------------------
struct MVal { int rows = 0, cols = 0; std::vector<double> v; bool null = false; };
static double gen_val(int cls) {
    switch (cls) {
    case 0: return (double)wrng.range(-9, 9);
    case 1: return 2 * wrng.unit() - 1;
    case 2: return (2 * wrng.unit() - 1) * pow(10, wrng.range(-290, 290));
    case 3: return (double)wrng.range(-1000000, 1000000) * 1e9 + wrng.range(0, 999);
    default: return wrng.below(3) ? 0.0 : (2 * wrng.unit() - 1) * 1e6;
    }
}
static void gen_mval(MVal &m, int maxd, bool square = false) {
    m.rows = P("rows", 0, 3) ? P("r", 1, maxd) : P("r1", 1, 2); m.cols = P("cols", 0, 3) ? P("c", 1, maxd) : P("c1", 1, 2);
    if (square) m.cols = m.rows;
    int cls = P("valcls", 0, 4);
    m.v.resize((size_t)m.rows * m.cols);
    for (auto &x : m.v) x = gen_val(cls);
}
static bool closev(double a, double b) {
    if (a == b) return true;
    return fabs(a - b) <= 1.01e-13 * fabs(b);
}
// library matrix holding the values; sometimes a view with a larger column stride
static armas_dense_t *to_lib(const MVal &m, armas_dense_t *A, bool strided) {
    int ld = m.rows + (strided ? 3 : 0);
    double *p = (double *)operand_mem(sizeof(double) * (size_t)(ld * m.cols + 1), "matrix");
    for (int i = 0; i < ld * m.cols; i++) p[i] = -7.125e77;
    for (int j = 0; j < m.cols; j++) for (int i = 0; i < m.rows; i++) p[i + (size_t)j * ld] = m.v[i + (size_t)j * m.rows];
    armas_make(A, m.rows, m.cols, ld, p);
    return A;
}
static void same_matrix(const char *site, const armas_dense_t *A, const MVal &m, const char *what) {
    if (A->rows != m.rows || A->cols != m.cols)
        violation("wrong-size", site, "%s: read a %d x %d matrix, expected %d x %d", what, A->rows, A->cols, m.rows, m.cols);
    for (int j = 0; j < m.cols; j++) for (int i = 0; i < m.rows; i++) {
        double a = armas_get_unsafe(A, i, j), b = m.v[i + (size_t)j * m.rows];
        if (!closev(a, b)) violation("wrong-value", site, "%s: element (%d,%d) is %.17g, expected %.17g", what, i, j, a, b);
    }
    checked();
}

// ------------------------------------------------------------------------------------------------
// Reference reader of JSON matrices (tolerant: accepts a superset of what a correct reader accepts)
// ------------------------------------------------------------------------------------------------
struct JRef {
    const std::string &s; size_t p; size_t end; bool bad = false;
    JRef(const std::string &t, size_t pos, size_t e) : s(t), p(pos), end(e) {}
    int peek() { while (p < end && strchr(" \t\r\n", s[p]) && s[p]) p++; return p < end ? (unsigned char)s[p] : -1; }
    bool eat(int c) { if (peek() == c) { p++; return true; } return false; }
    bool num(std::string &t) {
        if (peek() < 0) return false;
        t.clear();
        while (p < end && (isdigit((unsigned char)s[p]) || strchr("+-.eE", s[p])) && s[p]) t += s[p++];
        if (t.empty()) return false;
        char *e; strtod(t.c_str(), &e);
        if (*e || !isdigit((unsigned char)t[t.size() - 1])) return false;
        return t[0] == '-' || isdigit((unsigned char)t[0]);
    }
    bool integer(long &v) {
        std::string t; if (!num(t)) return false;
        double d = strtod(t.c_str(), 0);
        if (d != floor(d) || fabs(d) > 9e18) return false;
        v = (long)d; return true;
    }
    bool str(std::string &t) {
        t.clear();
        if (!eat('"')) return false;
        while (p < end) {
            int c = (unsigned char)s[p++];
            if (c == '"') return true;
            if (c == '\\') {
                if (p >= end) return false;
                int e = (unsigned char)s[p++];
                if (e == 'u') { if (p + 4 > end) return false; t += (char)strtol(s.substr(p, 4).c_str(), 0, 16); p += 4; }
                else { const char *k = "\"\\/bfnrt", *q = strchr(k, e); if (!e || !q) return false; t += "\"\\/\b\f\n\r\t"[q - k]; }
            } else t += (char)c;
        }
        return false;
    }
    bool matrix(MVal &m) {
        m = MVal();
        if (peek() == 'n') { if (p + 4 <= end && s.compare(p, 4, "null") == 0) { p += 4; m.null = true; return true; } return false; }
        if (!eat('{')) return false;
        if (eat('}')) { m.null = true; return true; }
        long rows = -1, cols = -1, x;
        for (;;) {
            std::string k;
            if (!str(k) || !eat(':')) return false;
            k = k.c_str();       // a zero byte in a name ends it
            if (k == "data") break;
            std::string t;
            if (k == "flags" || k == "nnz") { if (!num(t)) return false; if (!eat(',')) return false; continue; }
            if (!integer(x)) return false;
            if (k == "rows") { if (rows >= 0) return false; rows = x; } else if (k == "cols") { if (cols >= 0) return false; cols = x; }
            else return false;
            if (!eat(',')) return false;
        }
        if (rows < 0 || cols < 0 || rows > INT32_MAX || cols > INT32_MAX || !eat('[')) return false;
        m.rows = (int)rows; m.cols = (int)cols;
        if ((double)rows * cols > 2e8) return false;
        m.v.assign((size_t)rows * cols, 0.0);
        size_t n = 0;
        if (peek() == '[') {
            do {
                long i, j; std::string t;
                if (!eat('[') || !integer(i) || !eat(',') || !integer(j) || !eat(',') || !num(t) || !eat(']')) return false;
                if (i >= 0 && i < rows && j >= 0 && j < cols) m.v[i + j * rows] = strtod(t.c_str(), 0);
            } while (eat(','));
        } else if (rows * cols > 0) {
            do { std::string t; if (!num(t) || n >= m.v.size()) return false; m.v[n++] = strtod(t.c_str(), 0); } while (eat(','));
            if (n != m.v.size()) return false;
        }
        return eat(']') && eat('}');
    }
};

// valid JSON text of a matrix in another layout than the library writes
static void ws(std::string &o) { static const char *w[] = {"", "", "", " ", "\n", "\t", "  ", "\r\n"}; o += w[wrng.below(8)]; }
static std::string render(const MVal &m, int form) {
    std::string o; char b[64];
    if (m.null) return form & 1 ? "null" : "{}";
    ws(o); o += "{"; ws(o);
    auto mem = [&](const char *k, long v) { ws(o); o += "\""; o += k; o += "\""; ws(o); o += ":"; ws(o); o += std::to_string(v); ws(o); o += ","; };
    bool cf = wrng.below(2);
    if (form & 8) mem("flags", wrng.range(0, 200));
    mem(cf ? "cols" : "rows", cf ? m.cols : m.rows);
    if (form & 16) mem("nnz", (long)m.v.size());
    mem(cf ? "rows" : "cols", cf ? m.rows : m.cols);
    ws(o); o += "\"data\""; ws(o); o += ":"; ws(o); o += "["; ws(o);
    static const char *fm[] = {"%.17g", "%.15e", "%.14E"};
    bool first = true;
    for (int j = 0; j < m.cols; j++) for (int i = 0; i < m.rows; i++) {
        if (!first) { o += ","; ws(o); }
        first = false;
        snprintf(b, sizeof b, fm[wrng.below(3)], m.v[i + (size_t)j * m.rows]);
        if (form & 4 && wrng.below(6) == 0) {
            // outside of the matrix: has to be discarded
            int k = (int)wrng.below(4), a = k == 0 ? m.rows : k == 1 ? (int)wrng.below(m.rows) : k == 2 ? m.rows + (int)wrng.below(1000000) : -1 - (int)wrng.below(3);
            int c = k == 1 ? m.cols : k == 0 ? (int)wrng.below(m.cols) : (int)wrng.below(m.cols + 2);
            o += "[" + std::to_string(a) + "," + std::to_string(c) + ",77.5]"; ws(o); o += ","; ws(o);
        }
        if (form & 4) { o += "["; ws(o); o += std::to_string(i); ws(o); o += ","; ws(o); o += std::to_string(j); o += ","; ws(o); o += b; ws(o); o += "]"; }
        else o += b;
        ws(o);
    }
    o += "]"; ws(o); o += "}";
    return o;
}

// write one matrix with the library; true when it reports success
static bool lib_write(SimStream &s, int kind, int buf, const armas_dense_t *A, int flags, bool *reported_early) {
    *reported_early = false;
    if (kind == K_FILE) {
        FILE *fp = open_sim(&s, "w", buf);
        int rc = armas_json_dump(fp, A, flags);
        if (rc > 0) violation("error-return", "armas_json_dump", "armas_json_dump returned the positive value %d", rc);
        *reported_early = rc < 0;
        int cl = fclose(fp);
        return rc == 0 && cl == 0;
    }
    armas_iostream_t ios;
    armas_ios_init(&ios, &sim_vt, &s);
    int rc = armas_json_write(&ios, A, flags);
    if (rc > 0) violation("error-return", "armas_json_write", "armas_json_write returned the positive value %d", rc);
    *reported_early = rc < 0;
    armas_ios_close(&ios);
    return rc == 0;
}
static void gen_alloc_fault(AllocFault &f) {
    memset(&f, 0, sizeof f);
    f.only_lib = true; f.only_tid = -1; f.maxsize = ~0ull;
    f.nth = P("nth", 1, 4); f.from = PF("from", .5);
}
static void no_leak(u64 mark, const char *site, const char *what) {
    u64 pc = 0, size = 0, n = leaked_since(mark, &pc, &size);
    if (n) { R->pc[0] = pc; violation("leak", site, "%s: %llu blocks never returned (first: %llu bytes)", what, (unsigned long long)n, (unsigned long long)size); }
}

// read one item; checks success against the reference on the bytes that could be delivered. Returns true on success.
static bool read_item(Reader &r, size_t refpos, size_t refend, bool use_load, bool own, bool must, bool allocfault, const char *what, size_t *next) {
    armas_dense_t M, *A = own ? &M : NULL;
    armas_zero(&M);
    int rc = use_load && r.kind == K_FILE ? armas_json_load(&A, r.fp) : armas_json_read(&A, &r.ios);
    const char *site = "armas_json_read";
    MVal m; JRef ref(r.s->d, refpos, refend);
    bool ok = ref.matrix(m);
    emit((u64)rc); emit(ok);
    if (rc > 0) violation("error-return", site, "%s: returned the positive value %d", what, rc);
    if (rc == 0) {
        if (!ok) violation("false-success", site, "%s: success is reported for text which does not contain a complete matrix: %.200s", what, r.s->d.substr(refpos, refend - refpos).c_str());
        if (m.null) { if (A) violation("wrong-value", site, "%s: null matrix was read as a matrix", what); }
        else {
            if (!A) violation("wrong-value", site, "%s: success without a matrix", what);
            same_matrix(site, A, m, what);
        }
        *next = ref.p;
    } else {
        if (!own && A) violation("error-return", site, "%s: failure, but a matrix is returned", what);
        if (must) violation("false-failure", site, "%s: returned %d for a valid complete document: %.300s", what, rc, r.s->d.substr(refpos, refend - refpos).c_str());
        (void)allocfault; checked();
    }
    if (own) armas_release(&M);
    else if (rc == 0) armas_free(A);
    return rc == 0;
}

static void json_matrix(int maxd) {
    set_fill(P("fill", 0, 3)); set_align(P("align", 0, 1));
    int nitems = P("items", 1, 3);
    int wkind = P("wkind", K_FILE, K_WBUF), rkind = P("rkind", K_FILE, K_STRING);
    int wbuf = PC("wbufsz", {0, 1, 7, 64, 4096}), rbuf = PC("rbufsz", {0, 1, 7, 64, 4096});
    int fmode = P("fmode", 0, 6);   // 0 none 1 write fault 2 truncate 3 read error 4 damage 5 alloc 6 nonfinite
    describe("%s->%s items %d fault mode %d | ", kname[wkind], kname[rkind], nitems, fmode);
    u64 mark = alloc_mark();
    SimStream s;
    std::vector<MVal> items(nitems);
    std::vector<int> rendered(nitems, 0);
    for (int k = 0; k < nitems; k++) {
        MVal &m = items[k];
        int what = P("item", 0, 9);
        if (what == 0) m.null = true;
        else if (what == 1) { int z = P("empty", 0, 2); m.rows = z == 1 ? 3 : 0; m.cols = z == 2 ? 2 : 0; }
        else gen_mval(m, maxd);
        bool rend = PF("render", .3);
        int flags = PC("flags", {0, 0, ARMAS_SYMM, ARMAS_LOWER, -5});
        bool nonfin = fmode == 6 && k == nitems - 1 && !m.v.empty();
        if (nonfin) { rend = false; size_t i = wrng.below(m.v.size()); static const double b[] = {INFINITY, -INFINITY, NAN}; m.v[i] = b[P("bad", 0, 2)]; }
        describe("[%s%dx%d%s] ", m.null ? "null " : "", m.rows, m.cols, rend ? " text" : "");
        rendered[k] = rend;
        size_t start = s.d.size();
        if (rend) {
            int form = P("form", 0, 31);
            if ((form & 4) && m.v.empty()) form &= ~4;
            s.d += render(m, form);
            continue;
        }
        armas_dense_t A0, *A = m.null ? NULL : to_lib(m, &A0, PF("strided", .3));
        bool early;
        if (wkind == K_WBUF) {
            // size first, then a buffer of exactly or nearly that size
            SimStream t; armas_iostream_t io; armas_ios_init(&io, &sim_vt, &t);
            int rc0 = armas_json_write(&io, A, flags);
            size_t need = t.d.size();
            long off = fmode == 1 ? PC("short", {1, 1, 2, 5, 20}) : 0;
            size_t cap = need > (size_t)off ? need - off : 0;
            if (off) { fault_fired(F_SHORT_WRITE); nontrivial(); }
            struct armas_wbuf wb; wb.buf = (char *)operand_mem(cap ? cap : 1, "output buffer"); wb.bytes = cap; wb.offset = 0;
            armas_ios_wbuf(&io, &wb);
            int rc = armas_json_write(&io, A, flags);
            if (nonfin) { if (rc == 0 || rc0 == 0) goto nonfinite; break; }
            if (rc0) violation("false-failure", "armas_json_write", "armas_json_write returned %d without any fault", rc0);
            if (off && rc == 0) violation("false-success", "armas_json_write", "success is reported although the buffer is %ld bytes too short", off);
            if (!off && rc) violation("false-failure", "armas_json_write", "returned %d for a buffer of the right size %zu", rc, need);
            checked();
            if (off) return;
            s.d.append(wb.buf, cap);
        } else {
            if (fmode == 1 && k == nitems - 1) {
                SimStream t; lib_write(t, K_VT, 0, A, flags, &early);
                s.fault = P("wf", SF_WRITE_ERR, SF_WRITE_ONCE); s.at = start + (t.d.empty() ? 0 : wrng.below(t.d.size())); s.chunk = PC("wchunk", {0, 1, 3});
                describe("write fault %d at %zu of %zu ", s.fault, s.at - start, t.d.size());
            }
            bool ok = lib_write(s, wkind, wbuf, A, flags, &early);
            if (nonfin) { if (ok) goto nonfinite; if (!early) violation("error-return", "armas_json_write", "failure not reported"); break; }
            if (s.fault) {
                nontrivial();
                MVal m2; JRef ref(s.d, start, s.d.size());
                bool complete = ref.matrix(m2) && ref.p == s.d.size();
                if (ok && (!complete || s.fired)) violation("false-success", "armas_json_write", "success is reported although the stream failed at byte %zu", s.at - start);
                if (wkind == K_VT && s.fired && !early) violation("false-success", "armas_json_write", "a failing stream is not reported");
                checked();
                no_leak(mark, "armas_json_write", "failed write");
                return;
            }
            if (!ok) violation("false-failure", "armas_json_write", "writing failed without any fault");
        }
        {
            MVal m2; JRef ref(s.d, start, s.d.size());
            if (!ref.matrix(m2) || ref.p != s.d.size()) violation("bad-text", "armas_json_write", "the text written is not a JSON matrix: %.300s", s.d.substr(start).c_str());
            if (m2.null != m.null || m2.rows != m.rows || m2.cols != m.cols) violation("bad-text", "armas_json_write", "the text written is a %d x %d matrix, expected %d x %d", m2.rows, m2.cols, m.rows, m.cols);
            for (size_t i = 0; i < m.v.size(); i++) if (!closev(m2.v[i], m.v[i])) violation("bad-text", "armas_json_write", "element %zu written as %.17g instead of %.17g", i, m2.v[i], m.v[i]);
            checked();
        }
        continue;
    nonfinite:
        // success claimed for infinity or NaN: then it has to come back
        {
            Reader r; r.open(K_VT, &s, 0);
            armas_dense_t M, *B = &M; armas_zero(&M);
            r.s->pos = start;
            int rc = armas_json_read(&B, &r.ios);
            if (rc) violation("false-success", "armas_json_write", "success is reported for a matrix with infinity or NaN, but the text cannot be read");
            for (size_t i = 0; i < m.v.size(); i++) {
                double a = M.elems[i], b = m.v[i]; u64 x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8);
                bool xf = ((x >> 52) & 0x7ff) == 0x7ff, yf = ((y >> 52) & 0x7ff) == 0x7ff;
                if (xf != yf) violation("wrong-value", "armas_json_write", "element %zu does not survive", i);
            }
            armas_release(&M); r.close();
        }
        break;
    }
    if (fmode == 6) { no_leak(mark, "armas_json_write", "non-finite values"); return; }
    // ---- reading
    SimStream in; in.d = s.d;
    size_t limit = in.d.size();
    size_t dmg = (size_t)-1;
    in.chunk = PC("rchunk", {0, 1, 5});
    if (fmode == 2 || fmode == 3) {
        in.fault = fmode == 2 ? SF_READ_EOF : SF_READ_ERR; in.at = limit ? wrng.below(limit) : 0; limit = in.at;
        if (PF("tail", .4) && in.d.size() > 8) { in.at = in.d.size() - 1 - wrng.below(8); limit = in.at; }
        describe("%s at %zu of %zu ", fmode == 2 ? "end" : "read error", in.at, in.d.size()); nontrivial();
    }
    if (fmode == 4) {
        int nd = P("ndamage", 1, 3);
        for (int i = 0; i < nd && in.d.size(); i++) {
            size_t x = wrng.below(in.d.size()); if (x < dmg) dmg = x;
            char old = in.d[x], c;
            switch (P("damage", 0, 9)) {
            case 7: case 8: {       // an element of a list gets lost or doubled
                size_t c1 = in.d.find(',', x), c2 = c1 == std::string::npos ? c1 : in.d.find_first_of(",]", c1 + 1);
                if (c2 == std::string::npos) continue;
                if (wrng.below(3)) in.d.erase(c1, c2 - c1); else in.d.insert(c1, in.d.substr(c1, c2 - c1));
                fault_fired(F_BYTE_DAMAGE); continue; }
            case 9: {               // another number in place of one
                size_t a = in.d.find_first_of("0123456789", x); if (a == std::string::npos) continue;
                size_t e = a; while (e < in.d.size() && isdigit((unsigned char)in.d[e])) e++;
                static const char *nv[] = {"0", "1", "2", "3", "5", "-1", "-2", "100000", "4294967297", "2147483647", "65536", "1.5", "1e1", "99999999999999999999", "-", "1e400"};
                in.d.replace(a, e - a, nv[wrng.below(16)]);
                fault_fired(F_BYTE_DAMAGE); continue; }
            case 0: c = old ^ (1 << wrng.below(8)); break;
            case 1: c = (char)wrng.below(256); break;
            case 2: c = "{}[]:,\"\\ \n-+.eE0123456789"[wrng.below(25)]; break;
            case 3: in.d.erase(x, 1 + wrng.below(4)); fault_fired(F_BYTE_DAMAGE); continue;
            case 4: in.d.insert(x, 1, "{}[]:,\"\\ \n-+.eE0123456789"[wrng.below(25)]); fault_fired(F_BYTE_DAMAGE); continue;
            case 5: c = 0; break;
            default: { size_t n = std::min<size_t>(1 + wrng.below(12), in.d.size() - x); std::string t = in.d.substr(x, n); in.d.insert(x, t); fault_fired(F_BYTE_DAMAGE); continue; }
            }
            if (c != old) { in.d[x] = c; fault_fired(F_BYTE_DAMAGE); }
        }
        limit = in.d.size(); nontrivial();
    }
    bool use_load = PF("load", .5), own = PF("own", .5);
    AllocFault af;
    if (fmode == 5) gen_alloc_fault(af);
    Reader r;
    r.open(rkind, &in, rbuf);
    size_t pos = 0;
    int done = 0;
    for (int k = 0; k < nitems; k++) {
        char what[80]; snprintf(what, sizeof what, "item %d of %d (%s)", k, nitems, kname[rkind]);
        size_t next = 0;
        bool clean = fmode <= 1;
        if (fmode == 5) alloc_fault(&af);
        u64 before = fmode == 5 ? alloc_failed() : 0;
        bool ok = read_item(r, pos, limit, use_load, own, clean, fmode == 5, what, &next);
        bool failed = fmode == 5 && alloc_failed() > before;
        if (fmode == 5) alloc_fault(0);
        if (failed) nontrivial();
        if (!ok && fmode == 5 && !failed) violation("false-failure", "armas_json_read", "%s: failed without a failing allocation", what);
        if (!ok) break;
        if (clean && rendered[k] < 2) {
            MVal &m = items[k]; (void)m;
        }
        done++; pos = next;
        // the stream has to stand right behind the item
        if (rkind == K_VT && in.pos != pos) violation("stream-position", "armas_json_read", "%s: the stream stands at byte %zu, the document ends at byte %zu", what, in.pos, pos);
        if (rkind == K_WBUF && r.wb.offset != pos) violation("stream-position", "armas_json_read", "%s: the buffer stands at byte %zu, the document ends at byte %zu", what, (size_t)r.wb.offset, pos);
    }
    if (rkind == K_STRING && !r.unchanged(std::min(limit, in.d.size()))) violation("input-changed", "armas_ios_string", "the string was modified");
    r.close();
    if (fmode <= 1 && done == nitems) nontrivial();
    no_leak(mark, "armas_json_read", "after reading");
    check_heap();
}
SCENARIO(C10, matrix, 4, FAST) { json_matrix(P("big", 0, 3) ? 6 : 24); }
SCENARIO(C10, matrix_instr, 1, INSTR) { json_matrix(6); }

// ---- tokens
struct Tok { int t; std::string s; long i; double d; int len; };
static void json_tokens() {
    set_fill(P("fill", 0, 3));
    int n = P("ntok", 1, 14), rkind = P("rkind", K_FILE, K_STRING), wkind = P("wkind", K_FILE, K_VT);
    int rbuf = PC("rbufsz", {0, 1, 7, 64, 4096}), wbuf = PC("wbufsz", {0, 1, 7, 64, 4096});
    int fmode = P("fmode", 0, 4);     // 0 none 1 write fault 2 truncate 3 read error 4 small token buffer
    int ccls = P("chars", 0, 3);
    std::vector<Tok> v(n);
    describe("%s->%s %d tokens fault mode %d | ", kname[wkind], kname[rkind], n, fmode);
    u64 mark = alloc_mark();
    SimStream s;
    FILE *fp = NULL; armas_iostream_t io;
    auto wopen = [&]() { if (wkind == K_FILE) { fp = open_sim(&s, "w", wbuf); armas_ios_file(&io, fp); } else armas_ios_init(&io, &sim_vt, &s); };
    if (fmode == 1) { s.fault = P("wf", SF_WRITE_ERR, SF_WRITE_ONCE); s.at = wrng.below(12 * n); s.chunk = PC("wchunk", {0, 1, 3}); }
    wopen();
    bool err = false;
    std::vector<size_t> ends;
    size_t maxlen = 0;
    for (int k = 0; k < n; k++) {
        Tok &t = v[k]; t.i = 0; t.d = 0; t.len = 0;
        int rc = 0;
        switch (P("tok", 0, 7)) {
        case 0: t.t = ARMAS_JSON_STRING; {
            int l = P("slen", 0, 30);
            for (int i = 0; i < l; i++) t.s += ccls == 0 ? (char)wrng.range(32, 126) : ccls == 1 ? (char)wrng.range(1, 255) : ccls == 2 ? "\"\\/\b\f\n\r\t\x7f\x01 a"[wrng.below(12)] : (char)wrng.range(128, 255);
            char *m = (char *)operand_mem(l ? l : 1, "token text"); memcpy(m, t.s.data(), l);
            rc = armas_json_write_token(t.t, m, l, &io); break; }
        case 1: { t.t = ARMAS_JSON_INT; int *q = (int *)operand_mem(sizeof(int), "token int"); *q = wrng.below(4) ? wrng.range(-1000, 1000) : (int)wrng.next(); t.i = *q; rc = armas_json_write_token(t.t, q, sizeof(int), &io); break; }
        case 2: { t.t = ARMAS_JSON_INT; long *q = (long *)operand_mem(sizeof(long), "token long"); *q = (long)wrng.next(); t.i = *q; rc = armas_json_write_token(t.t, q, sizeof(long), &io); break; }
        case 3: { t.t = ARMAS_JSON_NUMBER; double *q = (double *)operand_mem(8, "token double"); *q = gen_val(P("valcls", 0, 4)); t.d = *q; t.len = 8; rc = armas_json_write_token(t.t, q, 8, &io); break; }
        case 4: { t.t = ARMAS_JSON_NUMBER; float *q = (float *)operand_mem(4, "token float"); *q = (float)(2 * wrng.unit() - 1) * 1000; t.d = *q; t.len = 4; rc = armas_json_write_token(t.t, q, 4, &io); break; }
        case 5: t.t = PC("lit", {ARMAS_JSON_TRUE, ARMAS_JSON_FALSE, ARMAS_JSON_NULL}); rc = armas_json_write_token(t.t, 0, 0, &io); break;
        default: t.t = "{}[]:,"[P("punct", 0, 5)]; rc = armas_json_write_simple_token(t.t, &io); break;
        }
        if (rc < 0) { err = true; break; }
        // numbers need a delimiter
        rc = armas_json_write_simple_token(',', &io);
        if (rc < 0) { err = true; break; }
        if (t.s.size() > maxlen) maxlen = t.s.size();
    }
    bool closed_ok = true;
    if (fp) closed_ok = fclose(fp) == 0;
    if (s.fired) {
        nontrivial();
        if (!err && (wkind == K_VT || closed_ok)) violation("false-success", "armas_json_write_token", "the stream failed at byte %zu, but every write reported success", s.at);
        checked(); return;
    }
    if (err) violation("false-failure", "armas_json_write_token", "writing a token failed without any fault");
    SimStream in; in.d = s.d; in.chunk = PC("rchunk", {0, 1, 5});
    size_t limit = in.d.size();
    if (fmode == 2 || fmode == 3) { in.fault = fmode == 2 ? SF_READ_EOF : SF_READ_ERR; in.at = limit ? wrng.below(limit) : 0; limit = in.at; nontrivial(); }
    size_t bl = fmode == 4 ? (size_t)P("blen", 2, 40) : 128;
    char *buf = (char *)operand_mem(bl, "token buffer");
    Reader r; r.open(rkind, &in, rbuf);
    size_t pos = 0;     // reference position: tokens never overlap
    for (int k = 0; k < 2 * n; k++) {
        memset(buf, 'Z', bl);
        int tok = armas_json_read_token(buf, bl, &r.ios);
        emit(tok);
        Tok sep; sep.t = ',';
        Tok &t = k & 1 ? sep : v[k / 2];
        // where this token ends in the text
        size_t e = pos;
        if (t.t == ARMAS_JSON_STRING) { e = pos + 1; while (e < in.d.size() && in.d[e] != '"') e += in.d[e] == '\\' ? 2 : 1; e++; }
        else if (t.t == ARMAS_JSON_INT || t.t == ARMAS_JSON_NUMBER) { while (e < in.d.size() && in.d[e] != ',') e++; }
        else if (t.t == ARMAS_JSON_FALSE) e += 5;
        else if (t.t == ARMAS_JSON_TRUE || t.t == ARMAS_JSON_NULL) e += 4;
        else e += 1;
        bool isnum = t.t == ARMAS_JSON_INT || t.t == ARMAS_JSON_NUMBER;
        if (e > limit || (isnum && e == limit && limit < in.d.size())) {
            // not all of it was delivered; a number may end where the stream ends
            if (isnum && pos < limit) { if (tok != ARMAS_JSON_NUMBER && tok != ARMAS_JSON_INT && tok != ARMAS_JSON_EOF && tok != ARMAS_JSON_EINVAL && tok != ARMAS_JSON_E2BIG) violation("wrong-token", "armas_json_read_token", "token %d read as %#x", k, tok); }
            else if (tok != ARMAS_JSON_EOF && tok != ARMAS_JSON_EINVAL && tok != ARMAS_JSON_E2BIG) violation("false-success", "armas_json_read_token", "token %d was not delivered completely, but %#x is returned", k, tok);
            checked(); break;
        }
        size_t textlen = t.t == ARMAS_JSON_STRING ? t.s.size() : isnum ? e - pos : 0;
        if (textlen + 1 >= bl) {      // does not (or only just) fit
            if (tok == ARMAS_JSON_E2BIG) { checked(); probe("e2big"); break; }
            if (textlen + 1 > bl) violation("false-success", "armas_json_read_token", "text of %zu characters returned in a buffer of %zu", textlen, bl);
        }
        pos = e;
        if (isnum) {
            if (tok != ARMAS_JSON_NUMBER && tok != ARMAS_JSON_INT) violation("wrong-token", "armas_json_read_token", "number read as token %#x: %s", tok, in.d.substr(pos, 40).c_str());
            if (!memchr(buf, 0, bl)) violation("wrong-token", "armas_json_read_token", "number not terminated");
            if (t.t == ARMAS_JSON_INT) { if (strtol(buf, 0, 10) != t.i) violation("wrong-value", "armas_json_read_token", "integer %ld read as %s", t.i, buf); }
            else { double d = strtod(buf, 0); if (!(fabs(d - t.d) <= (t.len == 4 ? 1e-7 : 1.01e-13) * fabs(t.d))) violation("wrong-value", "armas_json_read_token", "number %.17g read as %s", t.d, buf); }
        } else {
            if (tok != t.t) violation("wrong-token", "armas_json_read_token", "token %#x read as %#x", t.t, tok);
            if (t.t == ARMAS_JSON_STRING) {
                if (!memchr(buf, 0, bl)) violation("wrong-token", "armas_json_read_token", "string not terminated");
                if (t.s != buf) violation("wrong-value", "armas_json_read_token", "string of %zu characters is read differently", t.s.size());
            }
        }
        checked();
        if (rkind == K_VT && in.pos != pos) violation("stream-position", "armas_json_read_token", "the stream stands at byte %zu, the token ends at byte %zu", in.pos, pos);
        if (k == 2 * n - 1) {
            int x = armas_json_read_token(buf, bl, &r.ios);
            if (x != ARMAS_JSON_EOF) violation("wrong-token", "armas_json_read_token", "token %#x after the end", x);
            nontrivial();
        }
    }
    r.close();
    no_leak(mark, "armas_json_read_token", "after reading tokens");
    check_heap();
}
SCENARIO(C10, tokens, 2, FAST) { json_tokens(); }

// ---- arbitrary bytes
static void json_garbage() {
    set_fill(P("fill", 0, 3));
    int n = P("len", 0, 120), cls = P("cls", 0, 3), kind = P("rkind", K_FILE, K_STRING), rbuf = PC("rbufsz", {0, 1, 7, 64});
    SimStream in;
    for (int i = 0; i < n; i++) {
        static const char *frag[] = {"{", "}", "[", "]", ":", ",", "\"rows\"", "\"cols\"", "\"data\"", "\"nnz\"", "\"flags\"", "1", "2", "-", "0.5", "e", "null", "true", "false", "\\u0041", "\"", "3", "[1,1,2]", " "};
        if (cls == 0) in.d += (char)wrng.below(256);
        else if (cls == 1) in.d += "{}[]:,\"\\ \n-+.eE0123456789rowsclatnulfe"[wrng.below(38)];
        else in.d += frag[wrng.below(24)];
    }
    if (cls == 3) in.d = "{\"rows\":" + std::to_string(wrng.range(-2, 4)) + ",\"cols\":" + std::to_string(wrng.range(-2, 4)) + ",\"data\":[" + in.d;
    describe("%d pieces of class %d, %s | ", n, cls, kname[kind]);
    u64 mark = alloc_mark();
    nontrivial();
    if (PF("tokens", .4)) {
        size_t bl = (size_t)P("blen", 2, 40);
        char *buf = (char *)operand_mem(bl, "token buffer");
        Reader r; r.open(kind, &in, rbuf);
        int t; u64 cnt = 0;
        do {
            t = armas_json_read_token(buf, bl, &r.ios);
            if (++cnt > in.d.size() + 4) violation("hang", "armas_json_read_token", "more tokens than characters");
        } while (t != ARMAS_JSON_EOF);
        checked();
        r.close();
    } else {
        Reader r; r.open(kind, &in, rbuf);
        size_t next, pos = 0;
        bool own = PF("own", .5);
        for (int k = 0; k < 3; k++) {
            // a NUL character ends the text for the reader
            size_t z = in.d.find('\0', pos); size_t end = z == std::string::npos ? in.d.size() : z; (void)end;
            if (!read_item(r, pos, in.d.size(), PF("load", .5), own, false, false, "arbitrary text", &next)) break;
            pos = next;
        }
        r.close();
    }
    no_leak(mark, "armas_json_read", "arbitrary text");
    check_heap();
}
SCENARIO(C10, garbage, 2, FAST) { json_garbage(); }

// ------------------------------------------------------------------------------------------------
// C11: Matrix Market
// ------------------------------------------------------------------------------------------------
struct MMVal { int rows = 0, cols = 0; bool sym = false, coord = false; std::vector<double> v; std::vector<int> i, j; };   // dense: v column-major; coordinate: entries
// tolerant reference reader (superset of what a correct reader accepts); p: start, left behind the last line used
static bool mm_ref(const std::string &s, size_t &p, size_t end, MMVal &m, bool *openend) {
    auto line = [&](std::string &l) {
        if (p >= end) return false;
        size_t e = s.find('\n', p); *openend = e == std::string::npos || e >= end;
        if (*openend) e = end;
        l = s.substr(p, e - p); p = *openend ? end : e + 1;
        size_t z = l.find('\0'); if (z != std::string::npos) l.resize(z);
        return true;
    };
    auto blank = [](const std::string &l) { for (unsigned char c : l) if (!isspace(c)) return false; return true; };
    std::string l;
    m = MMVal();
    if (!line(l)) return false;
    std::vector<std::string> t;
    for (size_t k = 0; k < l.size();) {
        while (k < l.size() && isspace((unsigned char)l[k])) k++;
        size_t b = k; while (k < l.size() && !isspace((unsigned char)l[k])) k++;
        if (k > b) { std::string w = l.substr(b, k - b); for (auto &c : w) c = tolower((unsigned char)c); t.push_back(w); }
    }
    if (t.size() < 4 || t[0] != "%%matrixmarket" || t[1] != "matrix" || (t[2] != "array" && t[2] != "coordinate") || t[3] != "real") return false;
    m.coord = t[2] == "coordinate";
    if (t.size() > 4) {
        if (t[4] == "symmetric") m.sym = true;
        else if (t[4].compare(0, 7, "general") && t[4] != "hermitian") return false;
    }
    do { if (!line(l)) return false; } while (l[0] == '%' || blank(l));
    auto ints = [&](const char *&q, long &x) { char *e; while (isspace((unsigned char)*q)) q++; x = strtol(q, &e, 10); if (e == q || (*e && !isspace((unsigned char)*e))) return false; q = e; return true; };
    const char *q = l.c_str(); long r, c, nnz = 0;
    if (!ints(q, r) || !ints(q, c)) return false;
    if (m.coord && !ints(q, nnz)) return false;
    if (!blank(q) || r < 0 || c < 0 || r > INT32_MAX || c > INT32_MAX || nnz < 0 || nnz > INT32_MAX) return false;
    if (m.sym && !m.coord && r != c) return false;
    m.rows = (int)r; m.cols = (int)c;
    if (!m.coord && (double)r * c > 2e8) return false;
    long n = m.coord ? nnz : m.sym ? c * (c + 1) / 2 : r * c;
    if (!m.coord) m.v.assign((size_t)r * c, 0.0);
    long a = 0, b = 0;
    for (long k = 0; k < n; k++) {
        do { if (!line(l)) return false; } while (l[0] == '%' || blank(l));
        q = l.c_str();
        if (m.coord) {
            long i, j; if (!ints(q, i) || !ints(q, j) || i < 1 || i > r || j < 1 || j > c) return false;
            m.i.push_back((int)i - 1); m.j.push_back((int)j - 1);
        }
        char *e; double d = strtod(q, &e);
        if (e == q || !blank(e)) return false;
        if (m.coord) m.v.push_back(d);
        else { m.v[a + b * r] = d; if (++a >= r) { b++; a = m.sym ? b : 0; } }
    }
    return true;
}
static bool same_bits_class(double a, double b) {
    u64 x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8);
    bool xf = ((x >> 52) & 0x7ff) == 0x7ff, yf = ((y >> 52) & 0x7ff) == 0x7ff;
    if (xf || yf) { bool xn = xf && (x << 12), yn = yf && (y << 12); return xf && yf && xn == yn && (xn || (x >> 63) == (y >> 63)); }
    return closev(a, b);
}
static void mm_write_text(std::string &o, const MMVal &m, int form) {
    char b[96];
    static const char *bn[] = {"%%MatrixMarket", "%%matrixmarket", "%%MATRIXMARKET"};
    o += bn[wrng.below(3)]; o += form & 1 ? " Matrix " : " matrix "; o += m.coord ? (form & 1 ? "Coordinate" : "coordinate") : "array"; o += form & 1 ? " Real" : " real";
    if (m.sym) o += form & 1 ? " Symmetric" : " symmetric"; else if (form & 2) o += " general";
    o += "\n";
    for (int k = wrng.below(4) ? 0 : 1 + (int)wrng.below(3); k > 0; k--) { o += "% a comment"; if (form & 4) o += std::string(1 + wrng.below(300), 'x'); o += "\n"; }
    const char *sp = form & 8 ? "  " : " ";
    if (form & 8) o += " ";
    o += std::to_string(m.rows) + sp + std::to_string(m.cols);
    if (m.coord) o += sp + std::to_string(m.v.size());
    o += form & 16 ? " \n" : "\n";
    static const char *fm[] = {"%.17g", "%.15e", "%.14G"};
    auto put = [&](double v) { snprintf(b, sizeof b, fm[wrng.below(3)], v); o += b; o += form & 16 ? " \n" : "\n"; };
    if (m.coord) for (size_t k = 0; k < m.v.size(); k++) { o += std::to_string(m.i[k] + 1) + sp + std::to_string(m.j[k] + 1) + sp; put(m.v[k]); }
    else for (int j = 0; j < m.cols; j++) for (int i = m.sym ? j : 0; i < m.rows; i++) put(m.v[i + (size_t)j * m.rows]);
}
static void mm_damage(std::string &d) {
    for (int i = P("ndamage", 1, 3); i > 0 && d.size(); i--) {
        size_t x = wrng.below(d.size()); char old = d[x], c = old;
        if (PF("head", .4)) x = wrng.below(std::min<size_t>(d.size(), 70)), old = d[x];
        static const char cs[] = "0123456789 \n-+.eE%xnai\t";
        switch (P("damage", 0, 7)) {
        case 0: c = old ^ (1 << wrng.below(8)); break;
        case 1: c = (char)wrng.below(256); break;
        case 2: c = cs[wrng.below(23)]; break;
        case 3: d.erase(x, 1 + wrng.below(4)); fault_fired(F_BYTE_DAMAGE); continue;
        case 4: d.insert(x, 1, cs[wrng.below(23)]); fault_fired(F_BYTE_DAMAGE); continue;
        case 5: { size_t a = d.find('\n', x), e = a == std::string::npos ? a : d.find('\n', a + 1); if (e == std::string::npos) continue;
            if (wrng.below(2)) d.erase(a, e - a); else d.insert(a, d.substr(a, e - a)); fault_fired(F_BYTE_DAMAGE); continue; }   // a line is lost or doubled
        case 6: { size_t a = d.find_first_of("0123456789", x); if (a == std::string::npos) continue;
            size_t e = a; while (e < d.size() && isdigit((unsigned char)d[e])) e++;
            static const char *nv[] = {"0", "1", "2", "3", "5", "-1", "-2", "100000", "4294967297", "2147483647", "65536", "1.5", "1e1", "99999999999999999999", "-", "nan", "inf", "0x1p3"};
            d.replace(a, e - a, nv[wrng.below(18)]); fault_fired(F_BYTE_DAMAGE); continue; }
        default: c = 0; break;
        }
        if (c != old) { d[x] = c; fault_fired(F_BYTE_DAMAGE); }
    }
}
// one of the three storage kinds with the given entries
static armas_sparse_t *sp_make(const MMVal &m, int kind) {
    int n = (int)m.v.size();
    armas_sparse_t *A = (armas_sparse_t *)harness_alloc(sizeof *A);
    memset(A, 0, sizeof *A);
    size_t nb = armassp_bytes_needed(m.rows, m.cols, n, (armassp_type_enum)kind);
    void *d = operand_mem(nb ? nb : 8, "sparse");
    memset(d, 0, nb);
    if (armassp_make(A, m.rows, m.cols, n, (armassp_type_enum)kind, d, nb)) violation("error-return", "armassp_make", "armassp_make failed with enough space");
    if (kind == ARMASSP_COO) { for (int k = 0; k < n; k++) A->elems.ep[k] = coo_elem_t{m.v[k], m.i[k], m.j[k]}; A->nnz = n; return A; }
    int p = 0;
    for (int k = 0; k < A->nptr; k++) {
        A->ptr[k] = p;
        for (int q = 0; q < n; q++) if ((kind == ARMASSP_CSR ? m.i[q] : m.j[q]) == k) { A->elems.v[p] = m.v[q]; A->ix[p++] = kind == ARMASSP_CSR ? m.j[q] : m.i[q]; }
    }
    A->ptr[A->nptr] = p; A->nnz = n;
    return A;
}
static void gen_mm(MMVal &m, bool coord, int maxd) {
    m.coord = coord; m.sym = PF("sym", .35);
    MVal d; gen_mval(d, maxd, m.sym);
    m.rows = d.rows; m.cols = d.cols;
    if (!coord) {
        if (P("empty", 0, 15) == 0) { int z = P("ez", 0, 2); m.rows = z == 1 ? 3 : 0; m.cols = z == 2 ? 2 : 0; if (m.sym) m.rows = m.cols = 0; d.v.clear(); }
        m.v = d.v; return;
    }
    int dens = P("density", 0, 4);
    for (int j = 0; j < m.cols; j++) for (int i = m.sym ? j : 0; i < m.rows; i++)
        if (dens == 4 || (int)wrng.below(8) < 1 + 2 * dens) { m.i.push_back(i); m.j.push_back(j); m.v.push_back(d.v[i + (size_t)j * m.rows]); }
    if (dens == 0 && PF("zero", .5)) { m.i.clear(); m.j.clear(); m.v.clear(); }
}
// sparse = true: the sparse reader and writer
static void mm_run(bool sparse, int maxd) {
    set_fill(P("fill", 0, 3)); set_align(P("align", 0, 1));
    int nitems = P("items", 1, 3), fmode = P("fmode", 0, 5);     // 0 none 1 write fault 2 truncate 3 read error 4 damage 5 alloc
    int wbuf = PC("wbufsz", {0, 1, 7, 64, 4096}), rbuf = PC("rbufsz", {0, 1, 7, 64, 4096});
    const char *wsite = sparse ? "armassp_mmdump" : "armas_mmdump", *rsite = sparse ? "armassp_mmload" : "armas_mmload";
    describe("%s items %d fault mode %d | ", sparse ? "sparse" : "dense", nitems, fmode);
    u64 mark = alloc_mark();
    SimStream s;
    for (int k = 0; k < nitems; k++) {
        MMVal m;
        bool text = PF("text", .35);
        gen_mm(m, sparse || (text && PF("coord", .5)), maxd);
        if (!text && PF("special", .1) && !m.v.empty()) { static const double b[] = {INFINITY, -INFINITY, NAN, 1.7976931348623157e308, -0.0}; m.v[wrng.below(m.v.size())] = b[P("bad", 0, 4)]; }
        int kind = sparse ? P("kind", 0, 2) : 0;
        describe("[%dx%d %s%s%s %zu] ", m.rows, m.cols, m.coord ? "coordinate" : "array", m.sym ? " symmetric" : "", text ? " text" : "", m.v.size());
        size_t start = s.d.size();
        if (text) { mm_write_text(s.d, m, P("form", 0, 31)); continue; }
        int flags; armas_dense_t D; armas_sparse_t *S = 0;
        if (sparse) { S = sp_make(m, kind); flags = m.sym ? ARMAS_MM_SYMMETRIC : 0; }
        else { MVal d; d.rows = m.rows; d.cols = m.cols; d.v = m.v; to_lib(d, &D, PF("strided", .3)); flags = m.sym ? ARMAS_SYMM : 0; }
        auto dump = [&](FILE *fp) { return sparse ? armassp_mmdump(fp, S, flags) : armas_mmdump(fp, &D, flags); };
        if (fmode == 1 && k == nitems - 1) {
            SimStream t; FILE *fp = open_sim(&t, "w", 4096); dump(fp); fclose(fp);
            s.fault = P("wf", SF_WRITE_ERR, SF_WRITE_ONCE); s.at = start + (t.d.empty() ? 0 : wrng.below(t.d.size())); s.chunk = PC("wchunk", {0, 1, 3});
            describe("write fault %d at %zu of %zu ", s.fault, s.at - start, t.d.size()); nontrivial();
        }
        FILE *fp = open_sim(&s, "w", wbuf);
        int rc = dump(fp);
        bool closed = fclose(fp) == 0;
        emit(rc);
        if (s.fault) {
            if (rc >= 0 && closed) violation("false-success", wsite, "returned %d although the file failed at byte %zu", rc, s.at - start);
            if (rc >= 0 && wbuf <= 1 && s.fired) violation("false-success", wsite, "returned %d although the unbuffered file failed at byte %zu", rc, s.at - start);
            checked(); no_leak(mark, wsite, "failed dump"); return;
        }
        if (rc < 0 || !closed) violation("false-failure", wsite, "returned %d without any fault", rc);
        if ((size_t)rc != s.d.size() - start) violation("wrong-count", wsite, "returned %d, but %zu bytes were written", rc, s.d.size() - start);
        MMVal w; size_t p = start; bool oe;
        if (!mm_ref(s.d, p, s.d.size(), w, &oe) || p != s.d.size()) violation("bad-text", wsite, "the text written is not a Matrix Market file: %.300s", s.d.substr(start).c_str());
        if (w.rows != m.rows || w.cols != m.cols || w.sym != m.sym || w.coord != sparse) violation("bad-text", wsite, "the text describes a %d x %d %s matrix", w.rows, w.cols, w.sym ? "symmetric" : "general");
        if (sparse) {
            if (w.v.size() != m.v.size()) violation("bad-text", wsite, "%zu entries written, expected %zu", w.v.size(), m.v.size());
            std::vector<char> used(m.v.size(), 0);
            for (size_t x = 0; x < w.v.size(); x++) {
                size_t y = 0; while (y < m.v.size() && (used[y] || m.i[y] != w.i[x] || m.j[y] != w.j[x])) y++;
                if (y == m.v.size() || !same_bits_class(w.v[x], m.v[y])) violation("bad-text", wsite, "entry (%d,%d) %.17g written which is not in the matrix", w.i[x], w.j[x], w.v[x]);
                used[y] = 1;
            }
        } else for (int j = 0; j < m.cols; j++) for (int i = m.sym ? j : 0; i < m.rows; i++) {
            size_t x = i + (size_t)j * m.rows;
            if (!same_bits_class(w.v[x], m.v[x])) violation("bad-text", wsite, "element (%d,%d) written as %.17g instead of %.17g", i, j, w.v[x], m.v[x]);
        }
        checked();
    }
    SimStream in; in.d = s.d; in.chunk = PC("rchunk", {0, 1, 5});
    if (fmode <= 1 && PF("nonl", .2) && in.d.size() && in.d.back() == '\n' && in.d.find('\n') != in.d.size() - 1) in.d.pop_back();
    if (fmode == 4) { mm_damage(in.d); nontrivial(); }
    size_t limit = in.d.size();
    if ((fmode == 2 || fmode == 3) && limit) {
        in.fault = fmode == 2 ? SF_READ_EOF : SF_READ_ERR; in.at = wrng.below(limit);
        if (PF("tail", .4)) in.at = limit - 1 - wrng.below(std::min<size_t>(limit, 30));
        describe("%s at %zu of %zu ", fmode == 2 ? "end" : "read error", in.at, limit); limit = in.at; nontrivial();
    }
    AllocFault af; if (fmode == 5) gen_alloc_fault(af);
    FILE *fp = open_sim(&in, "r", rbuf);
    size_t pos = 0;
    for (int k = 0; k < nitems; k++) {
        MMVal m; bool oe = false; size_t p = pos;
        bool ok = mm_ref(in.d, p, limit, m, &oe);
        if (sparse && !m.coord) ok = false;
        int tc = -99, fl = -99, rc;
        armas_dense_t D; armas_zero(&D); armas_sparse_t *S = 0;
        if (!PF("garbled", .5)) memset(&D, 0x5a, sizeof D);      // "on entry uninitialized matrix"
        armas_dense_t D0 = D;
        if (fmode == 5) alloc_fault(&af);
        if (sparse) { S = armassp_mmload(&tc, fp); rc = S ? 0 : -1; } else rc = armas_mmload(&D, &fl, fp);
        u64 nf = fmode == 5 ? alloc_failed() : 0;
        if (fmode == 5) alloc_fault(0);
        if (nf) nontrivial();
        emit(rc);
        if (rc < 0) {
            if (fmode <= 1 || (fmode == 5 && !nf)) violation("false-failure", rsite, "item %d: returned %d for a valid complete file: %.300s", k, rc, in.d.substr(pos).c_str());
            if (memcmp(&D, &D0, sizeof D)) armas_release(&D);
            checked(); break;
        }
        if (!ok) violation("false-success", rsite, "item %d: success for text which is not a complete matrix: %.300s", k, in.d.substr(pos, limit - pos).c_str());
        if (in.fault == SF_READ_ERR && in.fired && oe) violation("false-success", rsite, "item %d: success although reading failed in its last line", k);
        if (sparse) {
            if (m.rows == 0 || m.cols == 0 ? S->rows * S->cols || S->nnz : S->rows != m.rows || S->cols != m.cols || S->nnz != (int)m.v.size()) violation("wrong-size", rsite, "item %d: read %d x %d with %d entries, expected %d x %d with %zu", k, S->rows, S->cols, S->nnz, m.rows, m.cols, m.v.size());
            if (S->kind != ARMASSP_COO) violation("wrong-size", rsite, "not a coordinate list");
            for (int x = 0; x < S->nnz; x++) {
                coo_elem_t e = S->elems.ep[x];
                if (e.i != m.i[x] || e.j != m.j[x] || !same_bits_class(e.val, m.v[x])) violation("wrong-value", rsite, "item %d: entry %d is (%d,%d) %.17g, expected (%d,%d) %.17g", k, x, e.i, e.j, e.val, m.i[x], m.j[x], m.v[x]);
            }
            if (((tc & ARMAS_MM_SYMMETRIC) != 0) != m.sym || !(tc & ARMAS_MM_COORDINATE) || !(tc & ARMAS_MM_REAL)) violation("wrong-flags", rsite, "type code %#x", tc);
            armassp_free(S);
        } else {
            if (m.rows == 0 || m.cols == 0 ? D.rows * D.cols : D.rows != m.rows || D.cols != m.cols) violation("wrong-size", rsite, "item %d: read %d x %d, expected %d x %d", k, D.rows, D.cols, m.rows, m.cols);
            std::vector<double> v((size_t)m.rows * m.cols, 0.0);
            if (m.coord) for (size_t x = 0; x < m.v.size(); x++) v[m.i[x] + (size_t)m.j[x] * m.rows] = m.v[x]; else v = m.v;
            for (int j = 0; j < m.cols; j++) for (int i = 0; i < m.rows; i++)
                if (!same_bits_class(armas_get_unsafe(&D, i, j), v[i + (size_t)j * m.rows])) violation("wrong-value", rsite, "item %d: element (%d,%d) is %.17g, expected %.17g", k, i, j, armas_get_unsafe(&D, i, j), v[i + (size_t)j * m.rows]);
            if (((fl & ARMAS_SYMM) != 0) != m.sym || fl < 0) violation("wrong-flags", rsite, "item %d: flags %#x for a %s matrix", k, fl, m.sym ? "symmetric" : "general");
            armas_release(&D);
        }
        checked();
        pos = p;
        if (fmode <= 1) nontrivial();
        // a file position behind the last line read
        if (rbuf == 0 && in.pos != pos) violation("stream-position", rsite, "item %d: the file stands at byte %zu, the matrix ends at byte %zu", k, in.pos, pos);
    }
    fclose(fp);
    no_leak(mark, rsite, "after loading");
    check_heap();
}
SCENARIO(C11, dense, 3, FAST) { mm_run(false, P("big", 0, 3) ? 6 : 20); }
SCENARIO(C11, sparse, 3, FAST) { mm_run(true, P("big", 0, 3) ? 6 : 20); }
SCENARIO(C11, dense_instr, 1, INSTR) { mm_run(false, 6); }
SCENARIO(C11, sparse_instr, 1, INSTR) { mm_run(true, 6); }

// ------------------------------------------------------------------------------------------------
// C20: text output of matrices, pivots and sparse structures
// ------------------------------------------------------------------------------------------------
static void addf(std::string &o, const char *f, double v) { char b[400]; snprintf(b, sizeof b, f, v); o += b; }
static void addi(std::string &o, const char *f, int v) { char b[64]; snprintf(b, sizeof b, f, v); o += b; }
static void print_text(int maxd) {
    set_fill(P("fill", 0, 3)); set_align(P("align", 0, 1));
    int nitems = P("items", 1, 4), fmode = P("fmode", 0, 3);   // 0, 1 no fault, 2 write fault, 3 allocations fail
    int buf = PC("bufsz", {0, 1, 7, 64, 4096});
    u64 mark = alloc_mark(), out0 = stdout_calls;
    describe("%d items, fault mode %d, buffer %d | ", nitems, fmode, buf);
    struct Item { int what; std::function<void(FILE *)> print; std::string text; std::function<void()> same; bool alloc; };
    std::vector<Item> items;
    static const char *fm[] = {"%8.1e", "%.17g", "%10.3f", " %+.2e", "v=%g;"}, *pf[] = {"%d", "%3d", "<%02d>"};
    for (int k = 0; k < nitems; k++) {
        Item it; it.what = P("what", 0, 4); it.alloc = false;
        if (it.what <= 1) {
            MVal m; gen_mval(m, maxd);
            if (P("empty", 0, 15) == 0) { m.rows = P("er", 0, 1) ? 3 : 0; m.cols = 0; m.v.clear(); }
            armas_dense_t *A = (armas_dense_t *)harness_alloc(sizeof *A); to_lib(m, A, PF("strided", .5));
            int f = P("format", -1, 4);
            const char *fmt = it.what == 1 || f < 0 ? fm[0] : fm[f];
            bool dflt = it.what == 1;
            it.print = [=](FILE *fp) { if (dflt) armas_print(A, fp); else armas_printf(fp, f < 0 ? NULL : fmt, A); };
            // long rows and columns show their first and last elements only
            for (int i = 0; i < m.rows; i++) {
                if (m.rows > 18 && i >= 9 && i < m.rows - 9) continue;
                it.text += "[";
                for (int j = 0; j < m.cols; j++) {
                    if (m.cols > 9 && j >= 4 && j < m.cols - 4) continue;
                    if (j) it.text += ", ";
                    addf(it.text, fmt, m.v[i + (size_t)j * m.rows]);
                    if (m.cols > 9 && j == 3) it.text += ", ...";
                }
                it.text += "]\n";
                if (m.rows > 18 && i == 8) it.text += " ....\n";
            }
            it.same = [=] { same_matrix("armas_printf", A, m, "printed matrix"); };
            describe("[%dx%d] ", m.rows, m.cols);
        } else if (it.what == 2) {
            int n = P("np", 0, 40), f = P("pformat", 0, 2);
            int *ix = (int *)operand_mem((n ? n : 1) * sizeof(int), "pivot");
            armas_pivot_t *p = (armas_pivot_t *)harness_alloc(sizeof *p);
            it.text = "[";
            for (int i = 0; i < n; i++) { ix[i] = (int)wrng.below(200) - 50; if (i) it.text += ", "; addi(it.text, pf[f], ix[i]); }
            it.text += "]\n";
            armas_pivot_make(p, n, ix);
            it.print = [=](FILE *fp) { armas_pivot_printf(fp, pf[f], p); };
            it.same = [] {};
            describe("[pivots %d] ", n);
        } else {
            MMVal m; gen_mm(m, true, maxd);
            int kind = it.what == 4 ? P("ckind", 0, 1) : P("kind", 0, 2);
            armas_sparse_t *S = sp_make(m, kind);
            if (it.what == 3) {
                std::string g((size_t)m.rows * m.cols, '.');
                for (size_t q = 0; q < m.v.size(); q++) g[(size_t)m.i[q] * m.cols + m.j[q]] = 'x';
                for (int i = 0; i < m.rows; i++) it.text += g.substr((size_t)i * m.cols, m.cols) + "\n";
                it.print = [=](FILE *fp) { armassp_pprintf(fp, S); };
                it.alloc = true;
            } else {
                for (int k2 = 0; k2 < (kind == ARMASSP_CSR ? m.rows : m.cols); k2++) {
                    it.text += kind == ARMASSP_CSR ? "r" : "c"; addi(it.text, "%02d: [", k2);
                    bool first = true;
                    for (size_t q = 0; q < m.v.size(); q++) if ((kind == ARMASSP_CSR ? m.i[q] : m.j[q]) == k2) { if (!first) it.text += ","; first = false; addi(it.text, "%3d", kind == ARMASSP_CSR ? m.j[q] : m.i[q]); }
                    it.text += "]\n";
                }
                it.print = [=](FILE *fp) { armassp_iprintf(fp, S); };
            }
            it.same = [] {};
            describe("[%s %dx%d %zu] ", it.what == 3 ? "pattern" : "structure", m.rows, m.cols, m.v.size());
        }
        items.push_back(it);
    }
    std::string want; for (auto &it : items) want += it.text;
    SimStream s;
    if (fmode == 2) { s.sticky = true; s.fault = P("wf", SF_WRITE_ERR, SF_WRITE_FULL); s.at = want.empty() ? 0 : wrng.below(want.size()); s.chunk = PC("wchunk", {0, 1, 3}); describe("write fault at %zu of %zu ", s.at, want.size()); }
    FILE *fp = open_sim(&s, "w", buf);
    std::string expect;
    for (auto &it : items) {
        bool fail = fmode == 3 && PF("fail", .6);
        if (fail) { AllocFault f; gen_alloc_fault(f); f.nth = 1; alloc_fault(&f); u64 a = alloc_failed(); it.print(fp); bool none = alloc_failed() == a; alloc_fault(0); if (none || !it.alloc) expect += it.text; }
        else { it.print(fp); expect += it.text; }
        it.same();
        if (buf == 0 && fmode != 2 && s.d != expect) break;
    }
    bool closed = fclose(fp) == 0;
    emit_mem(s.d.data(), s.d.size());
    if (fmode != 2 && (s.d != expect || !closed)) {
        size_t k = 0; while (k < s.d.size() && k < expect.size() && s.d[k] == expect[k]) k++;
        violation("wrong-text", "text output", "the text differs at byte %zu of %zu (%zu written): \"%.40s\" instead of \"%.40s\"", k, expect.size(), s.d.size(), s.d.c_str() + (k < 10 ? 0 : k - 10), expect.c_str() + (k < 10 ? 0 : k - 10));
    }
    if (fmode == 2 && (s.d.size() > expect.size() || expect.compare(0, s.d.size() < s.at ? s.d.size() : s.at, s.d, 0, s.d.size() < s.at ? s.d.size() : s.at)))
        violation("wrong-text", "text output", "the %zu bytes before the write fault are not the beginning of the text", s.at);
    if (stdout_calls != out0) violation("stray-output", "text output", "something was written to the standard output");
    no_leak(mark, "text output", "after printing");
    nontrivial(); checked(); check_heap();
}
SCENARIO(C20, text, 3, FAST) { print_text(P("big", 0, 2) ? 8 : 40); }
SCENARIO(C20, text_instr, 1, INSTR) { print_text(12); }
