/* Reading and writing of JSON and Matrix Market streams, see spec/Stream.tla. */
#include "spdefs.h"
#include "vm.h"
#include <sys/mman.h>
#include <unistd.h>
#define OP(n, ...) static void f_##n(void) { __VA_ARGS__; }
#define E(n) { #n, f_##n }
#define OUT 4096
static char big[1 << 15];
static int nb;
#define P(...) (nb += snprintf(big + nb, sizeof(big) - nb, __VA_ARGS__))
static unsigned char bytes[1 << 15];
static int nbytes;
extern void armas_ios_wbuf(armas_iostream_t *ios, struct armas_wbuf *wb);

/* an input stream over the given bytes: 0 string in memory that cannot be written nor read past, 1 buffer, 2 file */
static armas_iostream_t in;
static armas_wbuf_t wb;
static FILE *fp;
static char *area;
static size_t pg;
static int how;
static char *fixed(const unsigned char *s, int n)
{
    pg = (n / 4096 + 2) * 4096;
    area = mmap(0, pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    char *p = area + pg - 4096 - n;
    memcpy(p, s, n);
    mprotect(area, pg - 4096, PROT_READ);
    mprotect(area + pg - 4096, 4096, PROT_NONE);
    return p;
}
static FILE *infile(const unsigned char *s, int n) { return n ? fmemopen((void *)s, n, "r") : fopen("/dev/null", "r"); }
static void open_in(const unsigned char *s, int n, int h)
{
    how = h;
    if (h == 0) armas_ios_string(&in, fixed(s, n), n);
    else if (h == 1) { wb.buf = malloc(n ? n : 1); memcpy(wb.buf, s, n); wb.bytes = n; wb.offset = 0; armas_ios_wbuf(&in, &wb); }
    else armas_ios_file(&in, fp = infile(s, n));
}
static long at_in(void) { return how == 2 ? ftell(fp) : (long)((armas_wbuf_t *)in.stream)->offset; }
static void close_in(void)
{
    armas_ios_close(&in);
    if (how == 0) munmap(area, pg);
    else if (how == 1) free(wb.buf);
    else fclose(fp);
}
static void take(const char *key)       // bytes of buffer x
{
    vbuf_t *b = BUF(S(key));
    nbytes = (int)I("n");
    for (int i = 0; i < nbytes; i++) bytes[i] = (unsigned char)b->iv[i];
}
static int code(int t)
{
    switch (t) {
    case ARMAS_JSON_STRING: return 1;
    case ARMAS_JSON_INT: return 2;
    case ARMAS_JSON_NUMBER: return 3;
    case ARMAS_JSON_TRUE: return 4;
    case ARMAS_JSON_FALSE: return 5;
    case ARMAS_JSON_NULL: return 6;
    case ARMAS_JSON_EINVAL: return 7;
    case ARMAS_JSON_E2BIG: return 8;
    case ARMAS_JSON_EOF: return 9;
    }
    return t;
}
static void f_js_scan(void)
{
    int len = (int)I("len"), max = (int)I("max"), over = 0, t;
    take("x");
    open_in(bytes, nbytes, (int)I("how"));
    nb = 0; P("[");
    for (int k = 0; k < max; k++) {
#ifdef __SANITIZE_ADDRESS__
        char *b = malloc(len);
#else
        char *b = malloc(len + 64);
        memset(b, 0x5a, len + 64);
#endif
        t = code(armas_json_read_token(b, len, &in));
        P("%s[%d,%ld,[", k ? "," : "", t, at_in());
        if (t >= 1 && t <= 3) {
            int n = (int)strnlen(b, len);
            if (n == len) over = 1;
            for (int i = 0; i < n; i++) P("%s%d", i ? "," : "", (unsigned char)b[i]);
        }
        P("]]");
#ifndef __SANITIZE_ADDRESS__
        for (int i = 0; i < 64; i++) if (b[len + i] != 0x5a) over = 1;
#endif
        free(b);
        if (t <= 0 || (t >= 7 && t <= 9)) break;
    }
    P("]");
    close_in();
    outraw("toks", big); outint("over", over);
    ret = 0;
}
/* output stream */
static char *mem; static size_t memn; static int cap;
static void open_out(void)
{
    how = (int)I("how"); cap = S("cap") ? (int)I("cap") : OUT;
    if (how == 2) { mem = 0; armas_ios_file(&in, fp = open_memstream(&mem, &memn)); return; }
    wb.buf = malloc(cap + 64); memset(wb.buf, 0x5a, cap + 64); wb.bytes = cap; wb.offset = 0;
    armas_ios_wbuf(&in, &wb);
}
static int close_out(void)
{
    int over = 0;
    armas_ios_close(&in);
    if (how == 2) { fclose(fp); nbytes = (int)memn; memcpy(bytes, mem, memn); free(mem); }
    else {
        nbytes = (int)wb.offset;
        memcpy(bytes, wb.buf, nbytes);
        for (int i = 0; i < 64; i++) if (wb.buf[cap + i] != 0x5a) over = 1;
        free(wb.buf);
    }
    return over;
}
static void show_bytes(void)
{
    nb = 0; P("[");
    for (int i = 0; i < nbytes; i++) P("%s%d", i ? "," : "", bytes[i]);
    P("]");
    outraw("bytes", big);
}
/* tokens to write: kind, count, data */
static void f_js_put(void)
{
    static const int simple[] = { 0, 0, 0, 0, ARMAS_JSON_TRUE, ARMAS_JSON_FALSE, ARMAS_JSON_NULL };
    vbuf_t *T = BUF(S("x"));
    int r = 0, n = 0;
    open_out();
    for (int p = 0; p < I("n") && r >= 0; p += 2 + T->iv[p + 1]) {
        int k = T->iv[p], c = T->iv[p + 1], *d = T->iv + p + 2;
        if (k == 1) {
            char *s = malloc(c + 1);
            for (int i = 0; i < c; i++) s[i] = (char)d[i];
            s[c] = I("more") ? 'Z' : 0;
            r = armas_json_write_token(ARMAS_JSON_STRING, s, c, &in);
            free(s);
        } else if (k == 2 && I("more")) {
            long v = d[0];
            r = armas_json_write_token(ARMAS_JSON_INT, &v, sizeof(v), &in);
        } else if (k == 2) r = armas_json_write_token(ARMAS_JSON_INT, d, sizeof(int), &in);
        else if (k == 3) {
            double v = d[0] / 2048.0;
            float f = (float)v;
            r = I("more") && f == v ? armas_json_write_token(ARMAS_JSON_NUMBER, &f, sizeof(f), &in)
                                    : armas_json_write_token(ARMAS_JSON_NUMBER, &v, sizeof(v), &in);
        } else r = armas_json_write_simple_token(k < 7 ? simple[k] : k, &in);
        if (r >= 0) n++;
    }
    outint("over", close_out());
    outint("done", n);
    show_bytes();
    ret = r < 0 ? -1 : 0;
}
static void show_mat(const armas_dense_t *m)
{
    char t[48];
    outint("mr", m->rows); outint("mc", m->cols);
    nb = 0; P("[");
    if (m->elems && m->rows * (long)m->cols <= 400)
        for (int j = 0; j < m->cols; j++)
            for (int i = 0; i < m->rows; i++) { encpair(m->elems[i + (long)j * m->step], 11, t); P("%s%s", i + j ? "," : "", t); }
    P("]");
    outraw("mat", big);
}
static void none(void) { outint("mr", 0); outint("mc", 0); outraw("mat", "[]"); }
static void f_js_load(void)
{
    armas_dense_t m, *a = 0;
    long l0 = vm_live, pos;
    take("x");
    memset(&m, 0x55, sizeof(m));
    if (I("given")) a = &m;
    open_in(bytes, nbytes, (int)I("how"));
    ret = how == 2 && I("fd") ? armas_json_load(&a, fp) : armas_json_read(&a, &in);
    pos = at_in();
    close_in();
    outint("null", a == 0); outint("self", a == &m); outint("pos", pos);
    if (ret == 0 && a) show_mat(a); else none();
    if (ret == 0 && a == &m) armas_release(&m);
    else if (ret == 0 && a) armas_free(a);
    outint("dl", vm_live - l0);
}
/* elements as four 16 bit numbers each, high first */
static double bits_at(const int *d)
{
    uint64_t u = 0;
    double v;
    for (int i = 0; i < 4; i++) u = u << 16 | (uint64_t)(d[i] & 0xffff);
    memcpy(&v, &u, 8);
    return v;
}
static void bits_to(int *d, double v)
{
    uint64_t u;
    memcpy(&u, &v, 8);
    for (int i = 3; i >= 0; i--, u >>= 16) d[i] = (int)(u & 0xffff);
}
static void fill(armas_dense_t *m)
{
    vbuf_t *b = BUF(S("x"));
    int r = (int)I("r"), c = (int)I("c"), s = (int)I("s");
    double *e = malloc((s * c + 1) * sizeof(double));
    for (int i = 0; i < s * c; i++) e[i] = 77.0;
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) e[i + j * s] = bits_at(b->iv + 4 * (i + j * r));
    armas_make(m, r, c, s, e);
}
static void unfill(const armas_dense_t *m)
{
    vbuf_t *b = BUF(S("y"));
    outint("mr", m->rows); outint("mc", m->cols);
    for (int j = 0; j < m->cols; j++)
        for (int i = 0; i < m->rows; i++)
            if (4 * (i + j * m->rows) + 4 <= b->n) bits_to(b->iv + 4 * (i + j * m->rows), m->elems[i + (long)j * m->step]);
}
static void f_js_trip(void)
{
    armas_dense_t A, *B = 0;
    long l0 = vm_live;
    fill(&A);
    open_out();
    int w = how == 2 && I("fd") ? armas_json_dump(fp, &A, (int)I("fl")) : armas_json_write(&in, &A, (int)I("fl"));
    outint("over", close_out());
    free(A.elems);
    show_bytes();
    outint("wret", w);
    ret = -1;
    if (w == 0) {
        open_in(bytes, nbytes, (int)I("rhow"));
        ret = how == 2 && I("fd") ? armas_json_load(&B, fp) : armas_json_read(&B, &in);
        close_in();
    }
    if (ret == 0 && B) { unfill(B); armas_free(B); } else none();
    outint("dl", vm_live - l0);
}
static void f_js_null(void)
{
    open_out();
    ret = armas_json_write(&in, 0, 0);
    outint("over", close_out());
    show_bytes();
}
/* Matrix Market */
static void f_mm_load(void)
{
    armas_dense_t m;
    int fl = 0x7777;
    long l0 = vm_live;
    take("x");
    memset(&m, 0x55, sizeof(m));
    FILE *f = infile(bytes, nbytes);
    ret = armas_mmload(&m, &fl, f);
    fclose(f);
    outint("symm", (fl & ARMAS_SYMM) != 0); outint("other", fl & ~ARMAS_SYMM);
    if (ret >= 0) { show_mat(&m); armas_release(&m); } else none();
    outint("dl", vm_live - l0);
}
static void f_mm_trip(void)
{
    armas_dense_t A, B;
    int fl = 0;
    long l0 = vm_live;
    fill(&A);
    FILE *f = open_memstream(&mem, &memn);
    long w = armas_mmdump(f, &A, I("fl"));
    fclose(f);
    outint("wret", w == (long)memn ? 0 : w < 0 ? -1 : 1);
    nbytes = (int)memn; memcpy(bytes, mem, memn); free(mem); free(A.elems);
    show_bytes();
    f = infile(bytes, nbytes);
    ret = armas_mmload(&B, &fl, f);
    fclose(f);
    outint("symm", (fl & ARMAS_SYMM) != 0);
    if (ret >= 0) { unfill(&B); armas_release(&B); } else none();
    outint("dl", vm_live - l0);
}
static void show_sparse(const armas_sparse_t *A)
{
    char t[48];
    outint("mr", A->rows); outint("mc", A->cols); outint("kind", A->kind);
    nb = 0; P("[");
    for (int k = 0; k < A->nnz && k < 400; k++) {
        encpair(A->elems.ep[k].val, 11, t);
        P("%s[%d,%d,%s]", k ? "," : "", A->elems.ep[k].i, A->elems.ep[k].j, t);
    }
    P("]");
    outraw("mat", big);
}
static void f_mm_spload(void)
{
    int tc = 0;
    long l0 = vm_live;
    take("x");
    FILE *f = infile(bytes, nbytes);
    armas_sparse_t *A = armassp_mmload(&tc, f);
    fclose(f);
    ret = A ? 0 : -1;
    outint("symm", (tc & ARMAS_MM_SYMMETRIC) != 0);
    if (A) { show_sparse(A); armassp_free(A); } else { none(); outint("kind", 0); }
    outint("dl", vm_live - l0);
}
/* entries in x: row, column, four parts of value */
static void f_mm_sptrip(void)
{
    vbuf_t *b = BUF(S("x")), *y = BUF(S("y"));
    int n = (int)I("n"), tc = 0, kind = (int)I("kind");
    long l0 = vm_live;
    armas_sparse_t *A = armassp_new((int)I("r"), (int)I("c"), n + 1, ARMASSP_COO), *C = 0, *B;
    for (int k = 0; k < n; k++) armassp_append(A, b->iv[6 * k], b->iv[6 * k + 1], bits_at(b->iv + 6 * k + 2));
    if (kind != 2) { C = armassp_convert(A, kind ? ARMASSP_CSR : ARMASSP_CSC); armassp_free(A); A = C; }
    FILE *f = open_memstream(&mem, &memn);
    long w = armassp_mmdump(f, A, (int)I("sym") ? ARMAS_MM_SYMMETRIC : 0);
    fclose(f);
    armassp_free(A);
    outint("wret", w == (long)memn ? 0 : w < 0 ? -1 : 1);
    nbytes = (int)memn; memcpy(bytes, mem, memn); free(mem);
    show_bytes();
    f = infile(bytes, nbytes);
    B = armassp_mmload(&tc, f);
    fclose(f);
    ret = B ? 0 : -1;
    outint("symm", (tc & ARMAS_MM_SYMMETRIC) != 0);
    outint("mr", B ? B->rows : 0); outint("mc", B ? B->cols : 0); outint("cnt", B ? B->nnz : 0);
    for (int k = 0; B && k < B->nnz && 6 * k + 6 <= y->n; k++) {
        y->iv[6 * k] = B->elems.ep[k].i; y->iv[6 * k + 1] = B->elems.ep[k].j;
        bits_to(y->iv + 6 * k + 2, B->elems.ep[k].val);
    }
    if (B) armassp_free(B);
    outint("dl", vm_live - l0);
}
static const vopent_t tab[] = { E(js_scan), E(js_put), E(js_load), E(js_trip), E(js_null), E(mm_load), E(mm_trip), E(mm_spload), E(mm_sptrip) };
void vm_io_init(void) { vm_register(tab, sizeof(tab) / sizeof(tab[0])); }
