#include "vm.h"
#define OP(name, body) static void f_##name(void) { body; }
#define R(expr) ret = (long)(expr)
#define VAL(expr) outval("val", (expr), (int)I("vs"), (int)I("va"))
#define IVAL(expr) outint("val", (long)(expr))

static double ff_addc(double x) { return x + 3.0; }
static double ff_mul2(double x) { return 2.0 * x; }
static double ff_arg(double x, void *p) { return 2.0 * x + *(double *)p; }
static double ff_pos(int r, int c) { return 100.0 * r + c + 1.0; }
static double gcount;
static double ff_gen(void) { gcount += 1.0; return gcount; }
typedef struct { double sum; int n; int stop; } itst_t;
static int ff_iter(double x, void *p)
{
    itst_t *t = p;
    t->sum += x;
    t->n++;
    return t->stop > 0 && t->n >= t->stop ? -7 : 0;
}

// level 3
OP(mult, R(armas_mult(D("be"), V("C"), D("al"), V("A"), V("B"), I("fl"), cf)))
OP(mult_sym, R(armas_mult_sym(D("be"), V("C"), D("al"), V("A"), V("B"), I("fl"), cf)))
OP(mult_trm, R(armas_mult_trm(V("B"), D("al"), V("A"), I("fl"), cf)))
OP(solve_trm, R(armas_solve_trm(V("B"), D("al"), V("A"), I("fl"), cf)))
OP(update_sym, R(armas_update_sym(D("be"), V("C"), D("al"), V("A"), I("fl"), cf)))
OP(update2_sym, R(armas_update2_sym(D("be"), V("C"), D("al"), V("A"), V("B"), I("fl"), cf)))
OP(update_trm, R(armas_update_trm(D("be"), V("C"), D("al"), V("A"), V("B"), I("fl"), cf)))
// level 2
OP(mvmult, R(armas_mvmult(D("be"), V("Y"), D("al"), V("A"), V("X"), I("fl"), cf)))
OP(mvmult_sym, R(armas_mvmult_sym(D("be"), V("Y"), D("al"), V("A"), V("X"), I("fl"), cf)))
OP(mvmult_trm, R(armas_mvmult_trm(V("X"), D("al"), V("A"), I("fl"), cf)))
OP(mvsolve_trm, R(armas_mvsolve_trm(V("X"), D("al"), V("A"), I("fl"), cf)))
OP(mvupdate, R(armas_mvupdate(D("be"), V("A"), D("al"), V("X"), V("Y"), cf)))
OP(mvupdate_sym, R(armas_mvupdate_sym(D("be"), V("A"), D("al"), V("X"), I("fl"), cf)))
OP(mvupdate2_sym, R(armas_mvupdate2_sym(D("be"), V("A"), D("al"), V("X"), V("Y"), I("fl"), cf)))
OP(mvupdate_trm, R(armas_mvupdate_trm(D("be"), V("A"), D("al"), V("X"), V("Y"), I("fl"), cf)))
// level 1
OP(dot, VAL(armas_dot(V("X"), V("Y"), cf)))
static void f_adot(void)
{
    double r = D("r0");
    ret = armas_adot(&r, D("al"), V("X"), V("Y"), cf);
    outval("val", r, (int)I("vs"), (int)I("va"));
}
OP(asum, VAL(armas_asum(V("X"), cf)))
OP(nrm2, VAL(armas_nrm2(V("X"), cf)))
OP(amax, VAL(armas_amax(V("X"), cf)))
OP(iamax, IVAL(armas_iamax(V("X"), cf)))
extern int armas_iamin(const armas_dense_t *, armas_conf_t *);
OP(iamin, IVAL(armas_iamin(V("X"), cf)))
OP(axpy, R(armas_axpy(V("Y"), D("al"), V("X"), cf)))
OP(axpby, R(armas_axpby(D("be"), V("Y"), D("al"), V("X"), cf)))
OP(copy, R(armas_copy(V("Y"), V("X"), cf)))
OP(swap, R(armas_swap(V("Y"), V("X"), cf)))
OP(scale, R(armas_scale(V("X"), D("al"), cf)))
// elementwise
OP(mcopy, R(armas_mcopy(V("D"), V("A"), I("fl"), cf)))
OP(madd, R(armas_madd(V("A"), D("al"), I("fl"), cf)))
OP(mscale, R(armas_mscale(V("A"), D("al"), I("fl"), cf)))
OP(mplus, R(armas_mplus(D("al"), V("A"), D("be"), V("B"), I("fl"), cf)))
OP(scale_plus, R(armas_mplus(D("al"), V("A"), D("be"), V("B"), I("fl"), cf)))
OP(make_trm, armas_make_trm(V("A"), I("fl")))
OP(mnorm, VAL(armas_mnorm(V("A"), I("which"), cf)))
extern int armas_d_scale_to(armas_dense_t *, double, double, int, armas_conf_t *);
OP(scale_to, R(armas_d_scale_to(V("A"), D("from"), D("to"), I("fl"), cf)))
OP(apply, R(armas_apply(V("A"), I("fn") ? ff_mul2 : ff_addc, I("fl"))))
static void f_apply2(void)
{
    double c = D("al");
    ret = armas_apply2(V("A"), ff_arg, &c, I("fl"));
}
static void f_iterate(void)
{
    itst_t t = {0.0, 0, (int)I("stop")};
    ret = armas_iterate(V("A"), ff_iter, &t, I("fl"));
    outval("val", t.sum, 0, 0);
    outint("cnt", t.n);
}
OP(set_values, R(armas_set_values(V("A"), ff_pos, I("fl"))))
static void f_set_all(void)
{
    gcount = 0.0;
    ret = armas_set_all(V("A"), ff_gen, I("fl"));
}
OP(allclose, IVAL(armas_allclose(V("A"), V("B"))))
OP(intolerance, IVAL(armas_intolerance(V("A"), V("B"), D("at"), D("rt"))))
// views & handles
static void put_view(const char *key, const armas_dense_t *m, const vbuf_t *b)
{
    char t[160];
    snprintf(t, sizeof(t), "[%ld,%d,%d,%d]", m->elems ? (long)(m->elems - b->d) : -1L, m->rows, m->cols, m->step);
    outraw(key, t);
}
// extended precision
OP(ext_mult, R(armas_ext_mult(D("be"), V("C"), D("al"), V("A"), V("B"), I("fl"), cf)))
OP(ext_mult_sym, R(armas_ext_mult_sym(D("be"), V("C"), D("al"), V("A"), V("B"), I("fl"), cf)))
OP(ext_mult_trm, R(armas_ext_mult_trm(V("B"), D("al"), V("A"), I("fl"), cf)))
OP(ext_solve_trm, R(armas_ext_solve_trm(V("B"), D("al"), V("A"), I("fl"), cf)))
OP(ext_mvmult, R(armas_ext_mvmult(D("be"), V("Y"), D("al"), V("A"), V("X"), I("fl"), cf)))
OP(ext_mvmult_sym, R(armas_ext_mvmult_sym(D("be"), V("Y"), D("al"), V("A"), V("X"), I("fl"), cf)))
OP(ext_mvmult_trm, R(armas_ext_mvmult_trm(V("X"), D("al"), V("A"), I("fl"), cf)))
OP(ext_mvsolve_trm, R(armas_ext_mvsolve_trm(V("X"), D("al"), V("A"), I("fl"), cf)))
OP(ext_mvupdate, R(armas_ext_mvupdate(D("be"), V("A"), D("al"), V("X"), V("Y"), cf)))
OP(ext_mvupdate_sym, R(armas_ext_mvupdate_sym(D("be"), V("A"), D("al"), V("X"), I("fl"), cf)))
OP(ext_mvupdate2_sym, R(armas_ext_mvupdate2_sym(D("be"), V("A"), D("al"), V("X"), V("Y"), I("fl"), cf)))
OP(ext_axpby, R(armas_ext_axpby(D("be"), V("Y"), D("al"), V("X"), cf)))
static void f_ext_adot(void)
{
    double r = D("r0");
    ret = armas_ext_adot(&r, D("al"), V("X"), V("Y"), cf);
    outdig("val", r);
}
extern int armas_ext_sum(double *, double, const armas_dense_t *, int, armas_conf_t *);
static void f_ext_sum(void)
{
    double r = D("r0");
    ret = armas_ext_sum(&r, D("al"), V("X"), I("fl"), cf);
    outdig("val", r);
}

#define E(n) {#n, f_##n}
static const vopent_t tab[] = {
    E(mult), E(mult_sym), E(mult_trm), E(solve_trm), E(update_sym), E(update2_sym), E(update_trm),
    E(mvmult), E(mvmult_sym), E(mvmult_trm), E(mvsolve_trm), E(mvupdate), E(mvupdate_sym), E(mvupdate2_sym),
    E(mvupdate_trm), E(dot), E(adot), E(asum), E(nrm2), E(amax), E(iamax), E(iamin), E(axpy), E(axpby),
    E(copy), E(swap), E(scale), E(mcopy), E(madd), E(mscale), E(mplus), E(make_trm), E(mnorm),
    E(scale_to), E(apply), E(apply2), E(iterate), E(set_values), E(set_all), E(allclose), E(intolerance),
    E(ext_mult), E(ext_mult_sym), E(ext_mult_trm), E(ext_solve_trm), E(ext_mvmult), E(ext_mvmult_sym),
    E(ext_mvmult_trm), E(ext_mvsolve_trm), E(ext_mvupdate), E(ext_mvupdate_sym), E(ext_mvupdate2_sym),
    E(ext_axpby), E(ext_adot), E(ext_sum),
};
void vm_blas_init(void) { vm_register(tab, sizeof(tab) / sizeof(tab[0])); }
