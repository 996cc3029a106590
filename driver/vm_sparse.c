/* Sparse matrices: slot Xk is shown as the int buffer Xk = <<there, kind, rows, cols, entries, room, 9 line
 * starts, 64 entries (index or row, column, value)>>, see spec/Sparse.tla. */
#include "spdefs.h"
#include "vm.h"
#include <malloc.h>
#define OP(n, ...) static void f_##n(void) { __VA_ARGS__; sp_show(); }
#define X sp_slot
#define E(n) { #n, f_##n }
#define NX 8
#define NL 9
#define CAP 64
static armas_sparse_t st[NX], *xs[NX];
static long live0;

static int slot(const char *key) { return S(key)[1] - '0'; }
armas_sparse_t *sp_slot(const char *key) { const char *s = S(key); return s && *s == 'X' ? xs[s[1] - '0'] : 0; }
void sp_show(void)
{
    for (int k = 0; k < NX; k++) {
        vbuf_t *b = BUF((char[]){ 'X', '0' + k, 0 });
        armas_sparse_t *A = xs[k];
        memset(b->iv, 0, b->n * sizeof(int));
        if (!A) continue;
        int *v = b->iv;
        v[0] = 1; v[1] = A->kind; v[2] = A->rows; v[3] = A->cols; v[4] = A->nnz; v[5] = A->size;
        int n = A->nnz < 0 ? 0 : A->nnz > CAP ? CAP : A->nnz;
        size_t room = A->elems.v ? malloc_usable_size(A->elems.v) : 0;
        if (A->kind == ARMASSP_COO) {
            if (n * sizeof(coo_elem_t) > room) { v[4] = -1; n = 0; }
            for (int p = 0; p < n; p++) {
                v[6 + NL + 3 * p] = A->elems.ep[p].i;
                v[6 + NL + 3 * p + 1] = A->elems.ep[p].j;
                v[6 + NL + 3 * p + 2] = (int)enc(A->elems.ep[p].val, 0, 0);
            }
        } else if (A->ptr) {
            char *lo = (char *)A->elems.v, *hi = lo + room;
            int lines = A->kind == ARMASSP_CSR ? A->rows : A->cols;
            if (A->nptr != lines || lines > NL - 1 || (char *)A->ptr < lo || (char *)(A->ptr + lines + 1) > hi || (char *)(A->ix + n) > hi
                || (char *)(A->elems.v + n) > (char *)A->ptr || A->ix < A->ptr + lines + 1) { v[4] = -1; continue; }
            for (int l = 0; l <= lines; l++) v[6 + l] = A->ptr[l];
            for (int p = 0; p < n; p++) {
                v[6 + NL + 3 * p] = A->ix[p];
                v[6 + NL + 3 * p + 2] = (int)enc(A->elems.v[p], 0, 0);
            }
        }
    }
}
static void put(const char *key, armas_sparse_t *A) { xs[slot(key)] = A; ret = A ? 0 : -1; }
static void drop(int k)
{
    if (!xs[k]) return;
    if (xs[k] == &st[k]) armassp_release(xs[k]); else armassp_free(xs[k]);
    xs[k] = 0;
}
OP(sp_begin, for (int k = 0; k < NX; k++) drop(k); live0 = vm_live)
OP(sp_new, put("x", armassp_new(I("r"), I("c"), I("n"), I("kind"))))
OP(sp_init, int k = slot("x"); memset(&st[k], 0x55, sizeof(st[k])); put("x", armassp_init(&st[k], I("r"), I("c"), I("n"), I("kind"))))
OP(sp_make, int k = slot("x"); memset(&st[k], 0, sizeof(st[k])); size_t n = armassp_bytes_needed(I("r"), I("c"), I("n"), I("kind")) + I("more");
   void *p = malloc(n ? n : 1); ret = armassp_make(&st[k], I("r"), I("c"), I("n"), I("kind"), p, n);
   if (ret < 0) free(p); else xs[k] = &st[k];
   if (ret == 0 && I("kind") != ARMASSP_COO) memset(st[k].ptr, 0, (st[k].nptr + 1) * sizeof(int)))
OP(sp_append, ret = armassp_append(X("x"), I("i"), I("j"), D("v")))
OP(sp_resize, ret = armassp_resize(X("x"), I("n")))
OP(sp_copy, put("y", armassp_mkcopy(X("x"))))
OP(sp_copy_to, armas_sparse_t *r = armassp_copy_to(X("y"), X("x")); ret = !r ? -1 : r != X("y"))
OP(sp_convert, put("y", armassp_convert(X("x"), I("kind"))))
OP(sp_convert_to, armas_sparse_t *r = armassp_convert_to(X("y"), X("x"), I("kind")); ret = !r ? -1 : r != X("y"))
OP(sp_transpose, put("y", armassp_transpose(X("x"))))
OP(sp_transpose_to, armas_sparse_t *r = armassp_transpose_to(X("y"), X("x")); ret = !r ? -1 : r != X("y"))
OP(sp_sort, ret = armassp_sort(X("x")))
OP(sp_sort_to, ret = armassp_sort_to(X("x"), I("order")))
OP(sp_dense, ret = armassp_todense(V("D"), X("x"), cf))
OP(sp_diag, ret = armassp_hasdiag(X("x"), I("d")))
OP(sp_at, armas_sparse_t *A = X("x"); int p = armassp_nz(A, I("l"), I("ix")); armas_spvec_t w; armassp_vector(&w, A, I("l"));
   outint("found", p >= 0); outint("v", p >= 0 ? enc(armassp_value(A, p), 0, 0) : 0); outint("same", p < 0 || armassp_at(A, p) == I("ix"));
   outint("len", armassp_len(A, I("l"))); outint("size", armassp_size(A)); outint("lines", armassp_nvertex(A));
   outint("vec", w.nz == armassp_len(A, I("l")) && w.ix == armassp_iptr(A, I("l")) && w.elems == armassp_data(A, I("l"))))
OP(sp_free, drop(slot("x")))
OP(sp_live, outint("live", vm_live - live0))
OP(sp_mvmult, ret = armassp_mvmult(D("be"), V("Y"), D("al"), X("x"), V("X"), I("fl"), cf))
OP(sp_mvmult_sym, ret = armassp_mvmult_sym(D("be"), V("Y"), D("al"), X("x"), V("X"), I("fl"), cf))
OP(sp_mvmult_trm, ret = armassp_mvmult_trm(V("X"), D("al"), X("x"), I("fl"), cf))
OP(sp_mvsolve_trm, ret = armassp_mvsolve_trm(V("X"), D("al"), X("x"), I("fl"), cf))
OP(sp_add, put("z", armassp_add(D("al"), X("x"), D("be"), X("y"), I("fl"), cf)); if (ret) ret = -cf->error)
OP(sp_mult, put("z", armassp_mult(D("al"), X("x"), X("y"), I("fl"), cf)); if (ret) ret = -cf->error)
static void into(int mult)
{
    armas_wbuf_t wb = ARMAS_WBNULL;
#define GO (mult ? armassp_multto_w(X("z"), D("al"), X("x"), X("y"), I("fl"), &wb, cf) \
            : armassp_addto_w(X("z"), D("al"), X("x"), D("be"), X("y"), I("fl"), &wb, cf))
    if ((ret = GO) < 0) return;
    size_t n = wb.bytes;
    char *p = malloc(n + 64);
    memset(p, 0x3c, n + 64);
    wb = (armas_wbuf_t){ .buf = p, .bytes = n, .offset = 0 };
    outint("need", (long)n);
    if (I("less")) { wb.bytes -= I("less"); }
    ret = GO;
    outint("used", (long)wb.offset);
    int over = 0;
    for (int i = 0; i < 64; i++) over |= p[n + i] != 0x3c;
    outint("over", over);
    free(p);
}
OP(sp_addto, into(0))
OP(sp_multto, into(1))
static const vopent_t tab[] = { E(sp_begin), E(sp_new), E(sp_init), E(sp_make), E(sp_append), E(sp_resize), E(sp_copy), E(sp_copy_to),
    E(sp_convert), E(sp_convert_to), E(sp_transpose), E(sp_transpose_to), E(sp_sort), E(sp_sort_to), E(sp_dense), E(sp_diag), E(sp_at),
    E(sp_free), E(sp_live), E(sp_mvmult), E(sp_mvmult_sym), E(sp_mvmult_trm), E(sp_mvsolve_trm), E(sp_add), E(sp_mult), E(sp_addto), E(sp_multto) };
void vm_sparse_init(void) { vm_register(tab, sizeof(tab) / sizeof(tab[0])); }
