/* Iterative solvers and incomplete factorizations of sparse matrices, see spec/Iter.tla */
#include "spdefs.h"
#include "vm.h"
#define E(n) { #n, f_##n }
extern armas_sparse_t *sp_slot(const char *key);
extern void sp_show(void), w_query(void), w_alloc(long), w_done(void);
extern armas_wbuf_t *wb;
extern size_t wneed, wtot;
#define X sp_slot
static armassp_precond_t pc;

static void dense(void)
{
    armas_dense_t *F = V("F");
    armas_sparse_t *A = X("x");
    for (int j = 0; j < F->cols; j++)
        for (int i = 0; i < F->rows; i++) F->elems[i + j * F->step] = 0.0;
    if (A->kind == ARMASSP_COO || ret < 0) return;
    int lines = A->kind == ARMASSP_CSR ? A->rows : A->cols;
    for (int l = 0; l < lines; l++)
        for (int p = A->ptr[l]; p < A->ptr[l + 1]; p++) {
            int i = A->kind == ARMASSP_CSR ? l : A->ix[p], j = A->kind == ARMASSP_CSR ? A->ix[p] : l;
            if (i >= 0 && j >= 0 && i < F->rows && j < F->cols) F->elems[i + j * F->step] = A->elems.v[p];
        }
}
static void f_it_iluz(void) { memset(&pc, 0, sizeof(pc)); ret = armassp_init_iluz(&pc, X("x")); dense(); sp_show(); }
static void f_it_icholz(void) { memset(&pc, 0, sizeof(pc)); ret = armassp_init_icholz(&pc, X("x"), I("fl")); dense(); sp_show(); }
static void set(void)
{
    cf->maxiter = (int)I("maxiter");
    cf->gmres_m = (int)I("m");
    cf->stop = S("stop") ? ldexp(1.0, -(int)I("stop")) : 0.0;
    cf->smult = S("smult") ? ldexp(1.0, -(int)I("smult")) : 0.0;
    cf->numiters = -1;
    cf->residual = -1.0;
}
static void got(void)
{
    outint("iters", cf->numiters);
    outpair("resid", cf->residual, 11);
    cf->maxiter = cf->gmres_m = 0;
    cf->stop = cf->smult = 0.0;
    sp_show();
}
#define IT(name, expr, wexpr) static void f_it_##name(void) { set(); \
    if (I("w")) { long q; w_query(); q = (long)(wexpr); w_alloc(q); ret = (long)(wexpr); w_done(); } \
    else ret = (long)(expr); \
    got(); }
IT(cgrad, armassp_cgrad(V("X"), X("x"), V("B"), I("fl"), cf), armassp_cgrad_w(V("X"), X("x"), V("B"), I("fl"), wb, cf))
IT(pcgrad, armassp_pcgrad(V("X"), X("x"), V("B"), &pc, I("fl"), cf), armassp_pcgrad_w(V("X"), X("x"), V("B"), &pc, I("fl"), wb, cf))
IT(cgne, armassp_cgne(V("X"), X("x"), V("B"), cf), armassp_cgne_w(V("X"), X("x"), V("B"), wb, cf))
IT(cgnr, armassp_cgnr(V("X"), X("x"), V("B"), cf), armassp_cgnr_w(V("X"), X("x"), V("B"), wb, cf))
IT(gmres, armassp_gmres(V("X"), X("x"), V("B"), cf), armassp_gmres_w(V("X"), X("x"), V("B"), wb, cf))
IT(pgmres, armassp_pgmres(V("X"), X("x"), V("B"), &pc, cf), armassp_pgmres_w(V("X"), X("x"), V("B"), &pc, wb, cf))
static const vopent_t tab[] = { E(it_iluz), E(it_icholz), E(it_cgrad), E(it_pcgrad), E(it_cgne), E(it_cgnr), E(it_gmres), E(it_pgmres) };
void vm_iter_init(void) { vm_register(tab, sizeof(tab) / sizeof(tab[0])); }
