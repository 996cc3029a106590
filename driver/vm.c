#include "vm.h"
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>

#define MAXBUF 64
#define MAXARG 48
static vbuf_t bufs[MAXBUF];
static int nbufs;
static char *akey[MAXARG], *aval[MAXARG];
static int nargs;
static armas_dense_t views[MAXARG];
static armas_pivot_t pivs[MAXARG];
static int nviews, npivs;
static armas_conf_t conf;
armas_conf_t *cf = &conf;
long ret;
FILE *vmout;
static char extra[1 << 16];
static int nextra;
static armas_ac_handle_t accel;
static char accname[32];

static vopent_t ops[512];
static int nops;
void vm_register(const vopent_t *o, int n)
{
    for (int i = 0; i < n; i++) ops[nops++] = o[i];
}

vbuf_t *BUF(const char *name)
{
    for (int i = 0; i < nbufs; i++)
        if (strcmp(bufs[i].name, name) == 0) return &bufs[i];
    fprintf(stderr, "vm: no buffer '%s'\n", name);
    exit(97);
}
const char *S(const char *key)
{
    for (int i = 0; i < nargs; i++)
        if (strcmp(akey[i], key) == 0) return aval[i];
    return 0;
}
double D(const char *key)
{
    const char *s = S(key);
    return s ? strtod(s, 0) : 0.0;
}
long I(const char *key)
{
    const char *s = S(key);
    return s ? strtol(s, 0, 0) : 0;
}
armas_dense_t *V(const char *key)
{
    const char *s = S(key);
    char nm[24];
    int o, r, c, st;
    if (!s || *s == '-') return 0;
    const char *p = strchr(s, ',');
    if (!p) { fprintf(stderr, "vm: bad view %s\n", s); exit(97); }
    snprintf(nm, sizeof(nm), "%.*s", (int)(p - s), s);
    if (sscanf(p, ",%d,%d,%d,%d", &o, &r, &c, &st) != 4) { fprintf(stderr, "vm: bad view %s\n", s); exit(97); }
    vbuf_t *b = BUF(nm);
    armas_dense_t *m = &views[nviews++];
    armas_make(m, r, c, st, b->d + o);
    return m;
}
armas_pivot_t *P(const char *key)
{
    const char *s = S(key);
    char nm[24];
    int o = 0, n = -1;
    if (!s || *s == '-') return 0;
    const char *p = strchr(s, ',');
    if (p) {
        snprintf(nm, sizeof(nm), "%.*s", (int)(p - s), s);
        sscanf(p, ",%d,%d", &o, &n);
    } else snprintf(nm, sizeof(nm), "%s", s);
    vbuf_t *b = BUF(nm);
    armas_pivot_t *q = &pivs[npivs++];
    armas_pivot_make(q, n < 0 ? b->n : n, b->iv + o);
    return q;
}
void outraw(const char *name, const char *json);
int vm_dirty(void);
long enc(double v, int sc, int approx)
{
    // bit-level finiteness test: isfinite() is unreliable under fast-math
    uint64_t u;
    memcpy(&u, &v, 8);
    if (((u >> 52) & 0x7ff) == 0x7ff) return SENTINEL;
    double x = ldexp(v, sc);
    if (fabs(x) > 2147483600.0) return SENTINEL;
    double r = nearbyint(x);
    if (!approx && r != x) return SENTINEL;
    return (long)r;
}
// x as [h,l]: h*2^-hb + l*2^-(hb+15), |l| <= 2^14
void encpair(double v, int hb, char *t)
{
    uint64_t u;
    memcpy(&u, &v, 8);
    double x = ldexp(v, hb + 15);
    if (((u >> 52) & 0x7ff) == 0x7ff || fabs(x) > 7.0e13) { strcpy(t, "[2147483647,0]"); return; }
    long n = (long)nearbyint(x);
    long h = (n + 16384) >> 15;
    sprintf(t, "[%ld,%ld]", h, n - (h << 15));
}
void outpair(const char *name, double v, int hb)
{
    char t[48];
    encpair(v, hb, t);
    outraw(name, t);
}
// v as balanced digits [c0,c1,c2,c3] to the base 2^30; fractions below 2^-10 are rounding
void encdig(double v, char *t)
{
    uint64_t u;
    memcpy(&u, &v, 8);
    double r = ((u >> 52) & 0x7ff) == 0x7ff ? 0 : nearbyint(v);
    if (((u >> 52) & 0x7ff) == 0x7ff || fabs(v) > 0x1p118 || fabs(v - r) > 0x1p-10) { strcpy(t, "[2147483647,0,0,0]"); return; }
    __int128 x = (__int128)r;
    long c[4];
    for (int i = 0; i < 4; i++) {
        long q = (long)(x & 0x3fffffff);
        if (q >= 0x20000000) q -= 0x40000000;
        c[i] = q;
        x = (x - q) >> 30;
    }
    sprintf(t, "[%ld,%ld,%ld,%ld]", c[0], c[1], c[2], c[3]);
}
void outdig(const char *name, double v)
{
    char t[80];
    encdig(v, t);
    outraw(name, t);
}
void outval(const char *name, double v, int sc, int approx)
{
    nextra += snprintf(extra + nextra, sizeof(extra) - nextra, ",\"%s\":%ld", name, enc(v, sc, approx));
}
void outint(const char *name, long v)
{
    if (v > SENTINEL) v = SENTINEL;
    if (v < -SENTINEL) v = -SENTINEL;
    nextra += snprintf(extra + nextra, sizeof(extra) - nextra, ",\"%s\":%ld", name, v);
}
void outraw(const char *name, const char *json)
{
    nextra += snprintf(extra + nextra, sizeof(extra) - nextra, ",\"%s\":%s", name, json);
}
static double gpat(int i) { return 7.0e9 + 3.0 * i; }

static void clear_case(void)
{
    for (int i = 0; i < nbufs; i++) {
        free(bufs[i].raw); free(bufs[i].old); free(bufs[i].iraw); free(bufs[i].iold);
    }
    nbufs = 0;
    armas_ac_handle_t h = conf.accel;
    conf = *armas_conf_default();
    conf.accel = h;
    conf.error = 0;
    conf.work = 0;
}
// buf NAME kind n scale approx values...
long vm_live;                              // blocks in use
static void cmd_buf(char *s)
{
    char *sv, *t = strtok_r(s, " ", &sv);
    if (nbufs >= MAXBUF) exit(97);
    vbuf_t *b = &bufs[nbufs++];
    memset(b, 0, sizeof(*b));
    snprintf(b->name, sizeof(b->name), "%s", t);
    b->kind = *strtok_r(0, " ", &sv);
    b->n = atoi(strtok_r(0, " ", &sv));
    b->sc = atoi(strtok_r(0, " ", &sv));
    b->approx = atoi(strtok_r(0, " ", &sv));
    int insc = b->sc;
    long live = vm_live;
    if (b->kind == 'x') {                // fixed-point pairs: sc = high bits, approx = input scale
        insc = b->approx;
        b->approx = 2;
        b->kind = 'd';
    }
    if (b->kind == 'e') {                // digits to the base 2^30
        b->approx = 3;
        b->kind = 'd';
    }
    if (b->kind == 'd') {
        // data is 64-byte aligned, offset deliberately odd when asked for by the script (views do that)
        b->raw = aligned_alloc(64, ((b->n + 2 * GUARD) * sizeof(double) + 63) & ~63UL);
        b->old = malloc((b->n + 1) * sizeof(double));
        b->d = b->raw + GUARD;
        for (int i = 0; i < GUARD; i++) { b->raw[i] = gpat(i); b->d[b->n + i] = gpat(i + GUARD); }
        char *p = sv;
        for (int i = 0; i < b->n; i++) {
            long v = strtol(p, &p, 10);
            if (v == (b->approx == 3 ? 0x7fffffffffffffffL : SENTINEL)) memcpy(&b->d[i], &(uint64_t){0x7ff8000000000000UL}, 8);     // not a number
            else b->d[i] = ldexp((double)v, -insc);
            if (*p == ':') b->d[i] = ldexp(b->d[i], 30 * (int)strtol(p + 1, &p, 10));
        }
    } else {
        b->iraw = malloc((b->n + 2 * GUARD) * sizeof(int));
        b->iold = malloc((b->n + 1) * sizeof(int));
        b->iv = b->iraw + GUARD;
        for (int i = 0; i < GUARD; i++) { b->iraw[i] = 0x3ffff000 + i; b->iv[b->n + i] = 0x3fffe000 + i; }
        char *p = sv;
        for (int i = 0; i < b->n; i++) b->iv[i] = (int)strtol(p, &p, 10);
    }
    vm_live = live;
    fprintf(vmout, "{\"ok\":1}\n");
}
static int guards_ok(void)
{
    for (int k = 0; k < nbufs; k++) {
        vbuf_t *b = &bufs[k];
        for (int i = 0; i < GUARD; i++) {
            if (b->kind == 'd') {
                if (b->raw[i] != gpat(i) || b->d[b->n + i] != gpat(i + GUARD)) return 0;
            } else if (b->iraw[i] != 0x3ffff000 + i || b->iv[b->n + i] != 0x3fffe000 + i) return 0;
        }
    }
    return 1;
}
static void save_all(void)
{
    for (int k = 0; k < nbufs; k++) {
        vbuf_t *b = &bufs[k];
        if (b->kind == 'd') memcpy(b->old, b->d, b->n * sizeof(double));
        else memcpy(b->iold, b->iv, b->n * sizeof(int));
    }
}
static void print_changed(void)
{
    int first = 1;
    fprintf(vmout, ",\"out\":{");
    for (int k = 0; k < nbufs; k++) {
        vbuf_t *b = &bufs[k];
        int ch = b->kind == 'd' ? memcmp(b->old, b->d, b->n * sizeof(double))
                                : memcmp(b->iold, b->iv, b->n * sizeof(int));
        if (!ch) continue;
        fprintf(vmout, "%s\"%s\":[", first ? "" : ",", b->name);
        first = 0;
        for (int i = 0; i < b->n; i++) {
            if (b->approx == 2) {
                char t[48];
                encpair(b->d[i], b->sc, t);
                fprintf(vmout, i ? ",%s" : "%s", t);
                continue;
            }
            if (b->approx == 3) {
                char t[80];
                encdig(b->d[i], t);
                fprintf(vmout, i ? ",%s" : "%s", t);
                continue;
            }
            long v = b->kind == 'd' ? enc(b->d[i], b->sc, b->approx) : b->iv[i];
            if (v == -2147483648L) v = SENTINEL;
            fprintf(vmout, i ? ",%ld" : "%ld", v);
        }
        fprintf(vmout, "]");
    }
    fprintf(vmout, "}");
}
int vm_dirty(void)
{
    for (int k = 0; k < nbufs; k++) {
        vbuf_t *b = &bufs[k];
        if (b->kind == 'd' ? memcmp(b->old, b->d, b->n * sizeof(double))
                           : memcmp(b->iold, b->iv, b->n * sizeof(int))) return 1;
    }
    return 0;
}
static void parse_args(char *s)
{
    char *sv, *t;
    nargs = nviews = npivs = 0;
    for (t = strtok_r(s, " \n", &sv); t; t = strtok_r(0, " \n", &sv)) {
        char *e = strchr(t, '=');
        if (!e || nargs >= MAXARG) { fprintf(stderr, "vm: bad arg %s\n", t); exit(97); }
        *e = 0;
        akey[nargs] = t;
        aval[nargs++] = e + 1;
    }
}
/* Nothing the library computes may depend on what fresh memory happens to hold: new heap blocks and the
 * stack below a call are filled with not-a-numbers. */
#define NANBITS 0x7ff8000000000001UL
#ifndef __SANITIZE_ADDRESS__
extern void *__libc_malloc(size_t);
extern void *__libc_memalign(size_t, size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
static void *nanfill(void *p, size_t n)
{
    if (p) __atomic_add_fetch(&vm_live, 1, __ATOMIC_RELAXED);
    if (p) for (size_t i = 0; i + 8 <= n; i += 8) *(volatile uint64_t *)((char *)p + i) = NANBITS;
    return p;
}
void *malloc(size_t n) { return nanfill(__libc_malloc(n), n); }
void *aligned_alloc(size_t a, size_t n) { return nanfill(__libc_memalign(a, n), n); }
void *memalign(size_t a, size_t n) { return nanfill(__libc_memalign(a, n), n); }
void *calloc(size_t k, size_t n)
{
    void *p = __libc_calloc(k, n);
    if (p) __atomic_add_fetch(&vm_live, 1, __ATOMIC_RELAXED);
    return p;
}
void *realloc(void *o, size_t n)
{
    void *p = __libc_realloc(o, n);
    if (!o && p) __atomic_add_fetch(&vm_live, 1, __ATOMIC_RELAXED);
    return p;
}
void free(void *p)
{
    if (p) __atomic_sub_fetch(&vm_live, 1, __ATOMIC_RELAXED);
    __libc_free(p);
}
int posix_memalign(void **p, size_t a, size_t n) { *p = aligned_alloc(a, n); return *p ? 0 : 12; }
#endif
__attribute__((noinline)) void nanstack(void)
{
    volatile uint64_t t[8192];
    for (int i = 0; i < 8192; i++) t[i] = NANBITS;
}
extern int vs_inlib __attribute__((weak));
static void cmd_call(char *s)
{
    char *sp = strchr(s, ' ');
    if (sp) *sp++ = 0;
    parse_args(sp ? sp : s + strlen(s));
    vop_t fn = 0;
    for (int i = 0; i < nops; i++)
        if (strcmp(ops[i].name, s) == 0) { fn = ops[i].fn; break; }
    if (!fn) { fprintf(stderr, "vm: no op '%s'\n", s); exit(97); }
    conf.optflags = (int)I("of");
    conf.error = 0;
    ret = 0;
    nextra = 0;
    extra[0] = 0;
    save_all();
    nanstack();
    if (&vs_inlib) vs_inlib = 1;
    if (S("t")) vm_on((int)I("t"), fn); else fn();
    if (&vs_inlib) vs_inlib = 0;
    fprintf(vmout, "{\"ret\":%ld,\"err\":%d", ret, conf.error);
    print_changed();
    if (nextra) fprintf(vmout, "%s", extra);
    if (!guards_ok()) fprintf(vmout, ",\"guard\":1");
    fprintf(vmout, "}\n");
}
static void set_accel(const char *n)
{
    if (conf.accel) { armas_ac_release(conf.accel); conf.accel = 0; }
    if (*n && *n != '-') {
        if (armas_ac_init(&conf.accel, n) < 0) { fprintf(stderr, "vm: no accel %s\n", n); exit(97); }
    }
}
int vm_main(int argc, char **argv)
{
    char *line = 0;
    size_t cap = 0;
    ssize_t n;
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    vmout = stdout;
    clear_case();
    while ((n = getline(&line, &cap, stdin)) > 0) {
        while (n > 0 && (line[n - 1] == '\n' || line[n - 1] == ' ')) line[--n] = 0;
        if (strncmp(line, "case", 4) == 0) {
            clear_case();
            fprintf(vmout, "{\"ok\":1}\n");
        } else if (strncmp(line, "buf ", 4) == 0) {
            cmd_buf(line + 4);
        } else if (strncmp(line, "call ", 5) == 0) {
            cmd_call(line + 5);
        } else if (strncmp(line, "accel ", 6) == 0) {
            set_accel(line + 6);
            fprintf(vmout, "{\"ok\":1}\n");
        } else {
            fprintf(stderr, "vm: bad line %.40s\n", line);
            exit(97);
        }
        fflush(vmout);
    }
    return 0;
}
