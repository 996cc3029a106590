/* Workspace buffers: the structure is shown as the int buffer w = <<bytes, offset>>; what is handed out is
 * filled with a pattern of its own and looked at later. */
#include "vm.h"
#define OP(n, ...) static void f_##n(void) { __VA_ARGS__; show(); }
#define E(n) { #n, f_##n }
#define NA 256
static armas_wbuf_t own, *w = &own;
static char *mine;                       // memory of the caller
static struct { size_t at, n; unsigned char c; } area[NA];
static int na;
static unsigned char next;

static vbuf_t *wv(void) { return S("w") ? BUF(S("w")) : 0; }
static void show(void)
{
    vbuf_t *b = wv();
    if (!b || b->kind != 'i') return;
    b->iv[0] = (int)w->bytes;
    b->iv[1] = (int)w->offset;
}
static size_t count(const char *k)
{
    long n = I(k);
    return n >= 1073741823 ? (size_t)strtoull(S("big"), 0, 0) : (size_t)n;
}
// area handed out
static void got(void *p, size_t n)
{
    long at = p ? (char *)p - w->buf : -1;
    if (p && n < w->bytes + 1 && at + n <= w->bytes) {
        if (n && na < NA) {
            area[na].at = at; area[na].n = n; area[na].c = ++next ? next : ++next;
            memset(p, area[na].c, n);
            na++;
        }
    }
    outint("val", at);
    ret = 0;
}
static void drop(size_t from)            // areas that end after this are given back
{
    int k = 0;
    for (int i = 0; i < na; i++) if (area[i].at + area[i].n <= from) area[k++] = area[i];
    na = k;
}
static long zeros(void)
{
    long z = 0;
    for (size_t i = 0; i < w->bytes; i++) z += w->buf[i] == 0;
    return z;
}
static void clean(void) { if (mine) { free(mine); mine = 0; w = &own; own = ARMAS_WBNULL; } na = 0; }
OP(wb_alloc, clean(); ret = armas_walloc(w, I("n")) == w ? 0 : -1; outint("zero", zeros()))
OP(wb_attach, clean(); w = &own; mine = aligned_alloc(64, (I("n") + 191) & ~63UL); memset(mine, 0x5c, I("n") + 64);
   *w = (armas_wbuf_t){ .buf = mine, .bytes = I("n"), .offset = I("o") }; ret = 0)
OP(wb_bytes, size_t n = count("n"); got(armas_wreserve_bytes(w, n), n))
OP(wb_elems, size_t n = count("n"); size_t m = I("m"); void *p = armas_wreserve(w, n, m); got(p, n * m))
OP(wb_bits, size_t n = I("n"); got(armas_wreserve_bits(w, n), (n + 7) / 8))
OP(wb_reset, armas_wreset(w); drop(0); ret = 0)
OP(wb_setpos, armas_wsetpos(w, I("n")); drop(w->offset); ret = 0)
OP(wb_get, outint("free", armas_wbytes(w)); outint("pos", armas_wpos(w)); outint("ptr", (char *)armas_wptr(w) - w->buf); ret = 0)
OP(wb_none, outint("free", armas_wbytes(0)); outint("pos", armas_wpos(0)); outint("ptr", armas_wptr(0) ? 0 : -1);
   outint("val", armas_wreserve_bytes(0, 8) || armas_wreserve(0, 1, 8) || armas_wreserve_bits(0, 8) ? 0 : -1);
   armas_wsetpos(0, 0); armas_wrelease(0); armas_wfree(0); ret = 0)
static long lost(void)
{
    long n = 0;
    for (int i = 0; i < na; i++)
        for (size_t k = 0; k < area[i].n; k++) n += (unsigned char)w->buf[area[i].at + k] != area[i].c;
    return n;
}
OP(wb_kept, outint("lost", lost()); ret = 0)
OP(wb_zero, memset(w->buf, 0x33, w->bytes); armas_wzero(w, I("n"));
   long c = 0; while (c < (long)w->bytes && w->buf[c] == 0) c++;
   long o = 0; for (size_t i = c; i < w->bytes; i++) o += w->buf[i] != 0x33;
   outint("cleared", c); outint("other", o); na = 0; ret = 0)
OP(wb_release, if (mine) { free(mine); mine = 0; own = ARMAS_WBNULL; } else armas_wrelease(w); outint("null", w->buf == 0); na = 0; ret = 0)
OP(wb_new, clean(); w = armas_wnew(I("n")); outint("zero", zeros()); ret = 0)
OP(wb_free, armas_wfree(w); w = &own; own = ARMAS_WBNULL; na = 0; ret = 0)
OP(same, ret = 0)
static const vopent_t tab[] = { E(wb_alloc), E(wb_attach), E(wb_bytes), E(wb_elems), E(wb_bits), E(wb_reset), E(wb_setpos), E(wb_get),
    E(wb_none), E(wb_kept), E(wb_zero), E(wb_release), E(wb_new), E(wb_free), E(same) };
void vm_work_init(void) { vm_register(tab, sizeof(tab) / sizeof(tab[0])); }
