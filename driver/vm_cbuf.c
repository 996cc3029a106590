/* Cache buffers, see spec/Cbuf.tla.  Calls with t= run on thread t (0: the driver's own); with cb=1 it is
 * observed which cache buffers they write to and whether they give back what they take. */
#include "vm.h"
#include <malloc.h>
#include <pthread.h>
#include "internal.h"
#define OP(n, ...) static void f_##n(void) { __VA_ARGS__; }
#define E(n) { #n, f_##n }
#define NT 4
#define NS 6
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static struct { pthread_t th; int up; void (*job)(void); } tt[NT];
static armas_cbuf_t *tb[NT];             // buffer of the thread
static int tid[NT], nid;                 // its number
static armas_cbuf_t sel[NS];
static char *raw[NS];
static armas_wbuf_t work;
static char *wraw;
static long live0;

static void *body(void *a)
{
    int t = (int)(long)a;
    armas_cbuf_release_thread_global();
    pthread_mutex_lock(&mx);
    for (;;) {
        while (!tt[t].job) pthread_cond_wait(&cv, &mx);
        void (*j)(void) = tt[t].job;
        pthread_mutex_unlock(&mx);
        nanstack();
        j();
        pthread_mutex_lock(&mx);
        tt[t].job = 0;
        pthread_cond_broadcast(&cv);
    }
}
static void run(int t, void (*fn)(void))
{
    if (t == 0) { fn(); return; }
    pthread_mutex_lock(&mx);
    if (!tt[t].up) {
        tt[t].up = 1;
        pthread_create(&tt[t].th, 0, body, (void *)(long)t);
    }
    tt[t].job = fn;
    pthread_cond_broadcast(&cv);
    while (tt[t].job) pthread_cond_wait(&cv, &mx);
    pthread_mutex_unlock(&mx);
}
static void (*todo)(void);
static long l0, l1;
static void measured(void) { l0 = vm_live; todo(); l1 = vm_live; }
static void fill(char *p, size_t n) { for (size_t i = 0; i + 8 <= n; i += 8) *(uint64_t *)(p + i) = 0x7ff8000000abcdefUL; }
static int written(const char *p, size_t n)
{
    for (size_t i = 0; i + 8 <= n; i += 8) if (*(uint64_t *)(p + i) != 0x7ff8000000abcdefUL) return 1;
    return 0;
}
static armas_cbuf_t *got;
static void get(void) { got = armas_cbuf_get_thread_global(); }
// memory that is going away: nobody looks at it any more
static void gone(const char *lo, size_t n)
{
    for (int k = 0; k < NS; k++) if (lo && sel[k].data && !sel[k].__unaligned && sel[k].data >= lo && sel[k].data <= lo + n) sel[k].data = 0;
}
static void note(int t)                  // buffer of thread t as storage
{
    char nm[4] = { 'G', '0' + t, 0 };
    vbuf_t *b = BUF(nm);
    b->iv[0] = tb[t] ? tid[t] : 0;
    b->iv[1] = tb[t] ? (int)tb[t]->len : 0;
}
static void haveit(int t)
{
    run(t, get);
    if (tb[t] != got) { tb[t] = got; tid[t] = ++nid; }
}
static char *wfree(void) { return wraw ? wraw + 64 + work.offset : 0; }
void vm_on(int t, void (*fn)(void))
{
    if (!S("cb")) { run(t, fn); return; }
    for (int i = 0; i < NT; i++) if (tb[i]) fill(tb[i]->data, tb[i]->len);
    if (wraw) fill(wraw + 64, work.bytes);
    todo = fn;
    run(t, measured);
    if (I("cb") > 1) {                   // without a buffer before: without one after
        todo = armas_cbuf_release_thread_global;
        long b0 = l0;
        run(t, measured);
        l0 = b0;
    }
    outint("leak", l1 - l0);
    int m = 0;
    for (int i = 0; i < NT; i++) if (tb[i] && written(tb[i]->data, tb[i]->len)) m |= 1 << i;
    outint("tbuf", m);
    outint("wbuf", wraw ? written(wraw + 64, work.bytes) : 0);
    if (wraw) { vbuf_t *w = BUF("WK"); w->iv[0] = (int)work.bytes; w->iv[1] = (int)work.offset; }
}
static int slot(void) { return S("s")[1] - '0'; }
static void bounds(const armas_cbuf_t *c, const char *lo, size_t n)
{
    outint("al", (long)((uintptr_t)c->data % 64));
    outint("inside", lo && c->data >= lo && c->data + c->len <= lo + n);
    outint("l1", c->l1mem);
}
static void shown(int k, int kind, int blk)
{
    vbuf_t *b = BUF(S("s"));
    b->iv[0] = kind; b->iv[1] = blk; b->iv[2] = (int)sel[k].len;
}
static void nothing(void) {}
OP(cb_begin, for (int t = 1; t < NT; t++) run(t, nothing);
   for (int t = 0; t < NT; t++) { run(t, armas_cbuf_release_thread_global); tb[t] = 0; tid[t] = 0; }
   free(wraw); wraw = 0; work = ARMAS_WBNULL; cf->work = 0;
   for (int k = 0; k < NS; k++) { sel[k] = ARMAS_CBUF_EMPTY; free(raw[k]); raw[k] = 0; }
   live0 = vm_live)
static int cur;
static void thr(void) { get(); }
OP(cb_thread, int t = I("on"); armas_cbuf_t *was = tb[t]; todo = I("create") ? (void (*)(void))armas_cbuf_create_thread_global : thr; run(t, measured); haveit(t);
   note(t); outint("dl", l1 - l0); bounds(got, (char *)got, malloc_usable_size(got)))
OP(cb_unthread, int t = I("on"); if (tb[t]) gone(tb[t]->data, tb[t]->len);
   todo = armas_cbuf_release_thread_global; run(t, measured); tb[t] = 0; note(t); outint("dl", l1 - l0))
OP(cb_init, int k = slot(); l0 = vm_live; armas_cbuf_t *p = armas_cbuf_init(&sel[k], I("n"), I("wantl1")); outint("dl", vm_live - l0);
   bounds(p, p->__unaligned, p->__nbytes <= malloc_usable_size(p->__unaligned) ? p->__nbytes : 0); shown(k, 1, 0))
OP(cb_make, int k = slot(); raw[k] = aligned_alloc(64, (I("o") + I("n") + 191) & ~63UL); l0 = vm_live;
   armas_cbuf_t *p = armas_cbuf_make(&sel[k], raw[k] + I("o"), I("n"), I("wantl1")); outint("dl", vm_live - l0); bounds(p, raw[k] + I("o"), I("n"));
   shown(k, 4, 0))
static long src;
static void select_(void) { src = armas_cbuf_select(&sel[cur], I("nocf") ? 0 : cf); }
OP(cb_select, int t = I("on"); int k = cur = slot(); todo = select_; memset(&sel[k], 0, sizeof(sel[k])); run(t, measured); ret = src; outint("dl", l1 - l0);
   armas_cbuf_t *c = &sel[k]; int kind = 1; int blk = 0; const char *lo = c->__unaligned; size_t n = lo ? malloc_usable_size(c->__unaligned) : 0;
   if (l1 - l0 == 1 && !c->__unaligned) haveit(t);
   for (int i = 0; i < NT; i++) if (tb[i] && c->data == tb[i]->data) { kind = 2; blk = tid[i]; lo = (char *)tb[i]; n = malloc_usable_size(tb[i]); }
   if (wraw && c->data >= wraw + 64 && c->data <= wraw + 64 + work.bytes) { kind = 3; lo = wfree(); n = work.bytes - work.offset; }
   if (kind != 1) { outint("owns", c->__unaligned != 0); if (c->__unaligned) n = 0; }
   bounds(c, lo, n); shown(k, kind, blk); note(t); if (wraw) { vbuf_t *w = BUF("WK"); w->iv[0] = (int)work.bytes; w->iv[1] = (int)work.offset; })
OP(cb_release, int k = slot(); vbuf_t *b = BUF(S("s")); l0 = vm_live; armas_cbuf_release(&sel[k]); outint("dl", vm_live - l0);
   if (b->iv[0] == 1 && sel[k].data == 0 && sel[k].__unaligned == 0) { b->iv[0] = b->iv[1] = b->iv[2] = 0; } ret = 0)
OP(cb_setup, int k = slot(); cache_t c; memset(&c, 0x5a, sizeof(c)); l0 = vm_live; int p = sizeof(DTYPE);
   if (I("env")) armas_cache_setup(&c, &sel[k], I("three") ? 3 : 2, p);
   else if (I("three")) armas_cache_setup3(&c, &sel[k], I("mb"), I("nb"), I("kb"), p);
   else armas_cache_setup2(&c, &sel[k], I("mb"), I("nb"), I("kb"), p);
   outint("dl", vm_live - l0); outint("MB", c.MB); outint("NB", c.NB); outint("KB", c.KB); outint("rb", c.rb); outint("step", c.ab_step); outint("p", p);
   outint("a", (char *)c.Acpy - sel[k].data); outint("b", (char *)c.Bcpy - sel[k].data);
   outint("c", I("three") ? (char *)c.dC - sel[k].data : 0); outint("cstep", I("three") ? c.c_step : 0))
OP(cb_work, gone(wraw, wraw ? work.bytes + 64 : 0); free(wraw); wraw = aligned_alloc(64, (I("n") + 255) & ~63UL); work = (armas_wbuf_t){ .buf = wraw + 64, .bytes = I("n"), .offset = I("o") };
   cf->work = &work; if (!I("n")) { free(wraw); wraw = 0; cf->work = 0; } vbuf_t *w = BUF("WK"); w->iv[0] = I("n"); w->iv[1] = I("o"))
// what is selected can all be written to, and keeps it until something else is selected over it
OP(cb_kept, long bad = 0; for (int k = 0; k < NS; k++) if (sel[k].data) memset(sel[k].data, 0x40 + k, sel[k].len);
   for (int k = 0; k < NS; k++) if (sel[k].data) for (int j = 0; j < NS; j++)
     if (j != k && sel[j].data && sel[j].data < sel[k].data + sel[k].len && sel[k].data < sel[j].data + sel[j].len) bad |= sel[j].data != sel[k].data;
   outint("lost", bad))
OP(cb_live, gone(wraw, wraw ? work.bytes + 64 : 0); for (int k = 0; k < NS; k++) { free(raw[k]); raw[k] = 0; } free(wraw); wraw = 0; cf->work = 0; outint("live", vm_live - live0))
// several threads at once
static struct { armas_dense_t A, B, C; int n, bad; armas_conf_t conf; } pj[NT];
static pthread_barrier_t bar;
static void *parbody(void *a)
{
    int t = (int)(long)a;
    pthread_barrier_wait(&bar);
    for (int i = 0; i < pj[t].n; i++) pj[t].bad |= armas_mult(0.0, &pj[t].C, D("al"), &pj[t].A, &pj[t].B, I("fl"), &pj[t].conf) != 0;
    armas_cbuf_release_thread_global();
    return 0;
}
OP(cb_par, int nt = I("nt"); pthread_t th[NT]; pthread_barrier_init(&bar, 0, nt); int bad = 0;
   for (int t = 0; t < nt; t++) { char k[] = { 'C', '0' + t, 0 }; pj[t].A = *V("A"); pj[t].B = *V("B"); pj[t].C = *V(k); pj[t].n = I("n"); pj[t].bad = 0; pj[t].conf = *cf; pj[t].conf.error = 0; pj[t].conf.work = 0; }
   for (int t = 0; t < nt; t++) pthread_create(&th[t], 0, parbody, (void *)(long)t);
   for (int t = 0; t < nt; t++) { pthread_join(th[t], 0); bad |= pj[t].bad || pj[t].conf.error; }
   pthread_barrier_destroy(&bar); outint("bad", bad))
static const vopent_t tab[] = { E(cb_begin), E(cb_thread), E(cb_unthread), E(cb_init), E(cb_make), E(cb_select), E(cb_release), E(cb_setup),
    E(cb_work), E(cb_kept), E(cb_live), E(cb_par) };
void vm_cbuf_init(void) { vm_register(tab, sizeof(tab) / sizeof(tab[0])); }
