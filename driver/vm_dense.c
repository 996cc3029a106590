/* Matrix handles: handle x is shown as the int buffer x = <<rows, cols, step, offset, root, owns>>, see
 * spec/Dense.tla.  Storage of the library's own is shown as buffer Hk. */
#include "vm.h"
#include <malloc.h>
#include <sys/resource.h>
#include "internal.h"
#include "partition.h"
#define OP(n, ...) static void f_##n(void) { __VA_ARGS__; }
#define E(n) { #n, f_##n }
#define NH 26
#define NR 12
static armas_dense_t st[NH], *hs[NH];
static struct { double *at; int n; } root[NR];
static long live0;

static armas_dense_t *h(const char *key)
{
    const char *s = S(key);
    return s && *s != '-' ? hs[*s - 'a'] : 0;
}
static void name(const char *key, char *nm) { snprintf(nm, 24, "%s", S(key)); }
static void store(int k)                 // what Hk looks like
{
    char nm[24];
    snprintf(nm, sizeof(nm), "H%d", k);
    vbuf_t *b = BUF(nm);
    for (int i = 0; i < b->n; i++) b->d[i] = root[k].at && i < root[k].n ? root[k].at[i] : 0.0;
}
static int rootof(const double *p)
{
    for (int k = 1; k < NR; k++) if (root[k].at && p >= root[k].at && p < root[k].at + root[k].n) return k;
    return 0;
}
static void shown(const char *nm)        // what handle nm looks like
{
    vbuf_t *b = BUF(nm);
    armas_dense_t *m = hs[*nm - 'a'];
    int k = m->elems && m->rows > 0 && m->cols > 0 ? rootof(m->elems) : 0;
    b->iv[0] = m->rows; b->iv[1] = m->cols; b->iv[2] = m->step;
    b->iv[3] = k ? (int)(m->elems - root[k].at) : 0;
    b->iv[4] = k; b->iv[5] = m->__data != 0;
}
static void show(const char *key) { char nm[24]; name(key, nm); shown(nm); }
static long l0;
static void begin(void) { l0 = vm_live; }
static void end(void) { outint("dl", vm_live - l0); ret = 0; }
static void viewed(armas_dense_t *got)
{
    end();
    outint("null", got == 0);
    outint("self", got == h("x"));
    show("x");
}
OP(dn_begin, memset(root, 0, sizeof(root)); for (int i = 0; i < NH; i++) { hs[i] = &st[i]; armas_zero(&st[i]); }
   vbuf_t *b = BUF("P"); root[1].at = b->d; root[1].n = b->n; live0 = vm_live)
#define VIEW(e) armas_dense_t *x = h("x"), *a = h("a"), *p; int u = I("u"); begin(); p = e; viewed(p)
OP(dn_column, VIEW(u ? armas_column_unsafe(x, a, I("i")) : armas_column(x, a, I("i"))))
OP(dn_row, VIEW(u ? armas_row_unsafe(x, a, I("i")) : armas_row(x, a, I("i"))))
OP(dn_sub, VIEW(u ? armas_submatrix_unsafe(x, a, I("i"), I("j"), I("r"), I("c")) : armas_submatrix(x, a, I("i"), I("j"), I("r"), I("c"))))
OP(dn_subext, VIEW(armas_submatrix_ext(x, a, I("i"), I("j"), I("r"), I("c"), I("s"))))
static armas_dense_t *fresh(armas_dense_t *x) { if (x != h("a")) memset(x, 0x5a, sizeof(*x)); return x; }
OP(dn_subvec, VIEW(u ? armas_subvector_unsafe(fresh(x), a, I("i"), I("n")) : armas_subvector(fresh(x), a, I("i"), I("n"))))
OP(dn_diag, VIEW(u ? armas_diag_unsafe(fresh(x), a, I("dg")) : armas_diag(fresh(x), a, I("dg"))))
OP(dn_colrow, VIEW(armas_col_as_row(x, a)))
OP(dn_make, VIEW(armas_make(fresh(x), I("r"), I("c"), I("s"), root[1].at + I("o"))))
OP(dn_zero, begin(); armas_zero(fresh(h("x"))); viewed(h("x")))

static void value(double v) { outval("val", v, 0, 0); ret = 0; }
static void touched(armas_dense_t *m) { int k = m->elems ? rootof(m->elems) : 0; if (k > 1) store(k); }
OP(dn_get, armas_dense_t *a = h("a"); begin(); double v = I("u") ? armas_get_unsafe(a, I("i"), I("j")) : armas_get(a, I("i"), I("j")); end(); value(v))
OP(dn_set, armas_dense_t *a = h("a"); begin();
   if (I("u")) armas_set_unsafe(a, I("i"), I("j"), D("v")); else armas_set(a, I("i"), I("j"), D("v")); end(); touched(a))
OP(dn_getat, armas_dense_t *a = h("a"); begin(); double v = I("u") ? armas_get_at_unsafe(a, I("i")) : armas_get_at(a, I("i")); end(); value(v))
OP(dn_setat, armas_dense_t *a = h("a"); begin();
   if (I("u")) armas_set_at_unsafe(a, I("i"), D("v")); else armas_set_at(a, I("i"), D("v")); end(); touched(a))
OP(dn_index, armas_dense_t *a = h("a"); outint("val", I("u") ? armas_index_unsafe(a, I("i"), I("j")) : armas_index(a, I("i"), I("j"))))
OP(dn_real, outint("val", armas_real_index(h("a"), I("i"))))
OP(dn_info, armas_dense_t *a = h("a"); outint("size", armas_size(a)); outint("isvec", armas_isvector(a)); outint("valid", armas_index_valid(a, I("i")));
   DTYPE *p = armas_data(a); int k = p ? rootof(p) : 0; outint("data", a && armas_size(a) == 0 ? -1 : k ? p - root[k].at : p ? -2 : -1))

static void owned(armas_dense_t *m)      // new storage
{
    int k = I("st");
    root[k].at = m->elems; root[k].n = m->step * m->cols;
    outint("al", (long)((uintptr_t)m->elems % 64));
    char *e = (char *)(m->elems + (size_t)m->step * m->cols);
    outint("fit", m->__data && (char *)m->elems >= (char *)m->__data && e <= (char *)m->__data + malloc_usable_size(m->__data)
           && m->__nbytes <= (long)malloc_usable_size(m->__data) && e <= (char *)m->__data + m->__nbytes);
    store(k);
}
OP(dn_init, armas_dense_t *x = fresh(h("x")), *p; begin(); p = armas_init(x, I("r"), I("c")); end(); outint("self", p == x);
   if (x->__data) owned(x); show("x"))
static void took(armas_dense_t *p)
{
    end();
    outint("null", p == 0);
    if (p) { hs[*S("x") - 'a'] = p; owned(p); show("x"); }
}
OP(dn_alloc, begin(); took(armas_alloc(I("r"), I("c"))))
OP(dn_newcopy, armas_dense_t *a = h("a"); begin(); took(armas_newcopy(a)))
OP(dn_huge, struct rlimit o; struct rlimit n; getrlimit(RLIMIT_AS, &o); n = o; n.rlim_cur = 1L << 30; setrlimit(RLIMIT_AS, &n);
   armas_dense_t t; armas_dense_t *p; begin(); p = I("alloc") ? armas_alloc(I("r"), I("c")) : armas_init(&t, I("r"), I("c")); end();
   setrlimit(RLIMIT_AS, &o); outint("null", p == 0))
static void gone(int k) { if (k > 1) { memset(&root[k], 0, sizeof(root[k])); store(k); } }
OP(dn_release, armas_dense_t *x = h("x"); int k = x->__data ? rootof(x->elems) : 0; begin(); armas_release(x); end(); gone(k); show("x"))
OP(dn_free, armas_dense_t *x = h("x"); int k = x->__data ? rootof(x->elems) : 0; int n = *S("x") - 'a'; begin(); armas_free(x); end(); gone(k);
   hs[n] = &st[n]; armas_zero(&st[n]); show("x"))
OP(dn_freenone, begin(); armas_free(0); armas_release(0); end())
OP(dn_live, outint("live", vm_live - live0))

// parts are named xs=a,b,-
static armas_dense_t *part[9];
static char pname[9][2];
static void parts(void)
{
    char t[128], *sv;
    int k = 0;
    snprintf(t, sizeof(t), "%s", S("xs"));
    for (char *p = strtok_r(t, ",", &sv); p && k < 9; p = strtok_r(0, ",", &sv), k++) {
        pname[k][0] = *p; pname[k][1] = 0;
        part[k] = *p == '-' ? 0 : fresh(hs[*p - 'a']);
    }
    while (k < 9) part[k++] = 0;
    begin();
}
static void parted(void) { end(); for (int i = 0; i < 9; i++) if (part[i]) shown(pname[i]); memset(part, 0, sizeof(part)); }
#define HOW(r, c, v) switch (*S("how")) { case 'r': r; break; case 'c': c; break; default: v; break; } parted()
OP(dn_part, armas_dense_t *a = h("a"); int f = I("fwd"); int nb = I("nb"); parts();
   HOW(mat_partition_2x1(part[0], part[1], a, nb, f ? ARMAS_PTOP : ARMAS_PBOTTOM),
       mat_partition_1x2(part[0], part[1], a, nb, f ? ARMAS_PLEFT : ARMAS_PRIGHT),
       vec_partition_2x1(part[0], part[1], a, nb, f ? ARMAS_PTOP : ARMAS_PBOTTOM)))
OP(dn_repart, armas_dense_t *a = h("a"); armas_dense_t *t = h("t"); int f = I("fwd"); int nb = I("nb"); parts();
   HOW(mat_repartition_2x1to3x1(t, part[0], part[1], part[2], a, nb, f ? ARMAS_PBOTTOM : ARMAS_PTOP),
       mat_repartition_1x2to1x3(t, part[0], part[1], part[2], a, nb, f ? ARMAS_PRIGHT : ARMAS_PLEFT),
       vec_repartition_2x1to3x1(t, part[0], part[1], part[2], a, nb, f ? ARMAS_PBOTTOM : ARMAS_PTOP)))
OP(dn_continue, armas_dense_t *a = h("a"); armas_dense_t *t = h("t"); armas_dense_t *m = h("m"); int f = I("fwd"); parts();
   HOW(mat_continue_3x1to2x1(part[0], part[1], t, m, a, f ? ARMAS_PBOTTOM : ARMAS_PTOP),
       mat_continue_1x3to1x2(part[0], part[1], t, m, a, f ? ARMAS_PRIGHT : ARMAS_PLEFT),
       vec_continue_3x1to2x1(part[0], part[1], t, m, a, f ? ARMAS_PBOTTOM : ARMAS_PTOP)))
OP(dn_part2, armas_dense_t *a = h("a"); parts();
   mat_partition_2x2(part[0], part[1], part[2], part[3], a, I("mb"), I("nb"), I("fwd") ? ARMAS_PTOPLEFT : ARMAS_PBOTTOMRIGHT); parted())
OP(dn_repart2, armas_dense_t *a = h("a"); armas_dense_t *t = h("t"); parts();
   mat_repartition_2x2to3x3(t, part[0], part[1], part[2], part[3], part[4], part[5], part[6], part[7], part[8], a, I("nb"),
                            I("fwd") ? ARMAS_PBOTTOMRIGHT : ARMAS_PTOPLEFT); parted())
OP(dn_continue2, armas_dense_t *a = h("a"); armas_dense_t *t = h("t"); armas_dense_t *m = h("m"); armas_dense_t *l = h("l"); parts();
   mat_continue_3x3to2x2(part[0], part[1], part[2], part[3], t, m, l, a, I("fwd") ? ARMAS_PBOTTOMRIGHT : ARMAS_PTOPLEFT); parted())
OP(dn_merge, armas_dense_t *x = fresh(h("x")); armas_dense_t *a = h("a"); armas_dense_t *t = h("t"); begin();
   if (*S("how") == 'r') mat_merge2x1(x, a, t); else mat_merge1x2(x, a, t); viewed(x))
static const vopent_t tab[] = { E(dn_begin), E(dn_column), E(dn_row), E(dn_sub), E(dn_subext), E(dn_subvec), E(dn_diag), E(dn_colrow), E(dn_make),
    E(dn_zero), E(dn_get), E(dn_set), E(dn_getat), E(dn_setat), E(dn_index), E(dn_real), E(dn_info), E(dn_init), E(dn_alloc), E(dn_newcopy),
    E(dn_huge), E(dn_release), E(dn_free), E(dn_freenone), E(dn_live), E(dn_part), E(dn_repart), E(dn_continue), E(dn_part2), E(dn_repart2),
    E(dn_continue2), E(dn_merge) };
void vm_dense_init(void) { vm_register(tab, sizeof(tab) / sizeof(tab[0])); }
