#include "vm.h"
#define OP(name, body) static void f_##name(void) { body; }
#define R(expr) ret = (long)(expr)
#define IVAL(expr) outint("val", (long)(expr))
#define E(n) {#n, f_##n}
extern int armas_d_pivot_sort(armas_dense_t *, armas_pivot_t *, int);
extern int armas_d_pivot_index(armas_dense_t *, armas_conf_t *);

OP(pivot, R(armas_pivot(V("A"), P("P"), I("pf"), cf)))
OP(pivot_rows, R(armas_pivot_rows(V("A"), P("P"), I("pf"), cf)))
OP(pivot_cols, R(armas_pivot_cols(V("A"), P("P"), I("pf"), cf)))
OP(pivot_sort, R(armas_d_pivot_sort(V("D"), P("P"), I("dirn"))))
OP(pivot_index, IVAL(armas_d_pivot_index(V("X"), cf)))

/* Explicit workspace variants: the size query must leave the operands alone, the call proper gets a
 * buffer of exactly the queried size (plus wo reserved bytes in front, wx bytes on top) between guards. */
armas_wbuf_t *wb;
static armas_wbuf_t wb0;
static char *wmem;
size_t wneed, wtot;
void w_query(void) { wb0 = ARMAS_WBNULL; wb = &wb0; }
void w_alloc(long qret)
{
    size_t wo = I("wo"), wx = I("wx");
    int dirty = vm_dirty();
    wneed = wb0.bytes;
    wtot = wo + (S("wp") ? wneed / 8 * I("wp") / 100 * 8 : wneed) + wx;   // wp: part of it only
    wmem = aligned_alloc(64, ((wtot + 128) + 63) & ~63UL);
    memset(wmem, 0xA5, wtot + 128);
    for (size_t i = 0; i + 8 <= wtot; i += 8) *(uint64_t *)(wmem + 64 + i) = 0x7ff8000000000001UL;
    wb0 = (armas_wbuf_t){ .buf = wmem + 64, .bytes = wtot, .offset = wo };
    if (wtot == 0) wb = ARMAS_NOWORK;
    outint("wq", qret);
    outint("wsz", wneed);
    outint("wdirty", dirty);
}
void w_done(void)
{
    size_t wo = I("wo");
    int bad = 0;
    for (int i = 0; i < 64; i++)
        if ((unsigned char)wmem[i] != 0xA5 || (unsigned char)wmem[64 + wtot + i] != 0xA5) bad = 1;
    for (size_t i = 0; i + 8 <= wo; i += 8)
        if (*(uint64_t *)(wmem + 64 + i) != 0x7ff8000000000001UL) bad = 1;
    outint("wover", bad);
    outint("wused", wtot ? (long)wb0.offset - (long)wo : 0);
    outint("wkeep", wb0.buf == wmem + 64 && wb0.bytes == wtot);
    free(wmem);
    wmem = 0;
}
#define WOP(name, expr) static void f_##name(void) { long q; w_query(); q = (long)(expr); cf->error = 0; w_alloc(q); \
    ret = wneed == 0 && wtot == 0 && wb ? q : (long)(expr); w_done(); }

// fill the cache buffer of this thread with not-a-numbers: what it held must not matter
static void f_poison(void)
{
    armas_cbuf_t *cb = armas_cbuf_get_thread_global();
    double *d = (double *)cb->data;
    for (size_t i = 0; i < cb->len / sizeof(double); i++) ((uint64_t *)d)[i] = 0x7ff8000000000000UL;
}
OP(lufactor, R(armas_lufactor(V("A"), P("P"), cf)))
OP(lusolve, R(armas_lusolve(V("B"), V("A"), P("P"), I("fl"), cf)))
OP(luinverse, R(armas_luinverse(V("A"), P("P"), cf)))
WOP(luinverse_w, armas_luinverse_w(V("A"), P("P"), wb, cf))

// stopping criteria of the pivoting factorization: 2^-stop, 2^-smult
static armas_conf_t *cfs(void)
{
    cf->stop = S("stop") ? ldexp(1.0, -(int)I("stop")) : 0.0;
    cf->smult = S("smult") ? ldexp(1.0, -(int)I("smult")) : 0.0;
    return cf;
}
OP(cholfactor, R(armas_cholfactor(V("A"), P("P"), I("fl"), cfs())))
OP(cholesky, R(armas_cholesky(V("A"), I("fl"), cf)))
WOP(cholfactor_w, armas_cholfactor_w(V("A"), P("P"), I("fl"), wb, cfs()))
OP(cholsolve, R(armas_cholsolve(V("B"), V("A"), P("P"), I("fl"), cf)))
OP(cholinverse, R(armas_cholinverse(V("A"), I("fl"), cf)))
WOP(cholinverse_w, armas_cholinverse_w(V("A"), I("fl"), wb, cf))
OP(cholupdate, R(armas_cholupdate(V("A"), V("X"), I("fl"), cf)))

OP(ldlfactor, R(armas_ldlfactor(V("A"), P("P"), I("fl"), cf)))
WOP(ldlfactor_w, armas_ldlfactor_w(V("A"), P("P"), I("fl"), wb, cf))
OP(ldlsolve, R(armas_ldlsolve(V("B"), V("A"), P("P"), I("fl"), cf)))
OP(ldlinverse, R(armas_ldlinverse(V("A"), P("P"), I("fl"), cf)))
WOP(ldlinverse_w, armas_ldlinverse_w(V("A"), P("P"), I("fl"), wb, cf))
OP(bkfactor, R(armas_bkfactor(V("A"), P("P"), I("fl"), cf)))
WOP(bkfactor_w, armas_bkfactor_w(V("A"), P("P"), I("fl"), wb, cf))
OP(bksolve, R(armas_bksolve(V("B"), V("A"), P("P"), I("fl"), cf)))
WOP(bksolve_w, armas_bksolve_w(V("B"), V("A"), P("P"), I("fl"), wb, cf))

OP(qrfactor, R(armas_qrfactor(V("A"), V("T"), cf)))
WOP(qrfactor_w, armas_qrfactor_w(V("A"), V("T"), wb, cf))
OP(qrmult, R(armas_qrmult(V("C"), V("A"), V("T"), I("fl"), cf)))
WOP(qrmult_w, armas_qrmult_w(V("C"), V("A"), V("T"), I("fl"), wb, cf))
OP(qrbuild, R(armas_qrbuild(V("A"), V("T"), I("K"), cf)))
WOP(qrbuild_w, armas_qrbuild_w(V("A"), V("T"), I("K"), wb, cf))
OP(qrreflector, R(armas_qrreflector(V("X"), V("A"), V("T"), cf)))
OP(qrsolve, R(armas_qrsolve(V("B"), V("A"), V("T"), I("fl"), cf)))
WOP(qrsolve_w, armas_qrsolve_w(V("B"), V("A"), V("T"), I("fl"), wb, cf))
OP(qlfactor, R(armas_qlfactor(V("A"), V("T"), cf)))
WOP(qlfactor_w, armas_qlfactor_w(V("A"), V("T"), wb, cf))
OP(qlmult, R(armas_qlmult(V("C"), V("A"), V("T"), I("fl"), cf)))
WOP(qlmult_w, armas_qlmult_w(V("C"), V("A"), V("T"), I("fl"), wb, cf))
OP(qlbuild, R(armas_qlbuild(V("A"), V("T"), I("K"), cf)))
WOP(qlbuild_w, armas_qlbuild_w(V("A"), V("T"), I("K"), wb, cf))
OP(qlreflector, R(armas_qlreflector(V("X"), V("A"), V("T"), cf)))
OP(lqfactor, R(armas_lqfactor(V("A"), V("T"), cf)))
WOP(lqfactor_w, armas_lqfactor_w(V("A"), V("T"), wb, cf))
OP(lqmult, R(armas_lqmult(V("C"), V("A"), V("T"), I("fl"), cf)))
WOP(lqmult_w, armas_lqmult_w(V("C"), V("A"), V("T"), I("fl"), wb, cf))
OP(lqbuild, R(armas_lqbuild(V("A"), V("T"), I("K"), cf)))
WOP(lqbuild_w, armas_lqbuild_w(V("A"), V("T"), I("K"), wb, cf))
OP(lqreflector, R(armas_lqreflector(V("X"), V("A"), V("T"), cf)))
OP(lqsolve, R(armas_lqsolve(V("B"), V("A"), V("T"), I("fl"), cf)))
WOP(lqsolve_w, armas_lqsolve_w(V("B"), V("A"), V("T"), I("fl"), wb, cf))
OP(rqfactor, R(armas_rqfactor(V("A"), V("T"), cf)))
WOP(rqfactor_w, armas_rqfactor_w(V("A"), V("T"), wb, cf))
OP(rqmult, R(armas_rqmult(V("C"), V("A"), V("T"), I("fl"), cf)))
WOP(rqmult_w, armas_rqmult_w(V("C"), V("A"), V("T"), I("fl"), wb, cf))
OP(rqbuild, R(armas_rqbuild(V("A"), V("T"), I("K"), cf)))
WOP(rqbuild_w, armas_rqbuild_w(V("A"), V("T"), I("K"), wb, cf))
OP(rqreflector, R(armas_rqreflector(V("X"), V("A"), V("T"), cf)))
OP(qrtfactor, R(armas_qrtfactor(V("A"), V("X"), cf)))
WOP(qrtfactor_w, armas_qrtfactor_w(V("A"), V("X"), wb, cf))

OP(hessreduce, R(armas_hessreduce(V("A"), V("T"), cf)))
WOP(hessreduce_w, armas_hessreduce_w(V("A"), V("T"), wb, cf))
OP(hessmult, R(armas_hessmult(V("C"), V("A"), V("T"), I("fl"), cf)))
WOP(hessmult_w, armas_hessmult_w(V("C"), V("A"), V("T"), I("fl"), wb, cf))
OP(bdreduce, R(armas_bdreduce(V("A"), V("T"), V("S"), cf)))
WOP(bdreduce_w, armas_bdreduce_w(V("A"), V("T"), V("S"), wb, cf))
OP(bdmult, R(armas_bdmult(V("C"), V("A"), V("T"), I("fl"), cf)))
WOP(bdmult_w, armas_bdmult_w(V("C"), V("A"), V("T"), I("fl"), wb, cf))
OP(bdbuild, R(armas_bdbuild(V("A"), V("T"), I("K"), I("fl"), cf)))
WOP(bdbuild_w, armas_bdbuild_w(V("A"), V("T"), I("K"), I("fl"), wb, cf))
OP(trdreduce, R(armas_trdreduce(V("A"), V("T"), I("fl"), cf)))
WOP(trdreduce_w, armas_trdreduce_w(V("A"), V("T"), I("fl"), wb, cf))
OP(trdmult, R(armas_trdmult(V("C"), V("A"), V("T"), I("fl"), cf)))
WOP(trdmult_w, armas_trdmult_w(V("C"), V("A"), V("T"), I("fl"), wb, cf))
OP(trdbuild, R(armas_trdbuild(V("A"), V("T"), I("K"), I("fl"), cf)))
WOP(trdbuild_w, armas_trdbuild_w(V("A"), V("T"), I("K"), I("fl"), wb, cf))

// scale the elements of a vector by 2^e
static void vscale(armas_dense_t *x, int e)
{
    for (int i = 0; i < armas_size(x); i++)
        armas_set_at_unsafe(x, i, ldexp(armas_get_at_unsafe(x, i), e));
}
#define AT(x, i) armas_get_at_unsafe(x, i)
// reflectors of operands scaled by 2^sc: what is of their magnitude afterwards is scaled back
static void f_house(void)
{
    int sc = I("sc");
    vscale(V("H"), sc);
    vscale(V("X"), sc);
    ret = armas_house(V("H"), V("X"), V("T"), I("fl"), cf);
    vscale(I("fl") & ARMAS_UNIT ? V("H") : V("T"), -sc);
}
static void f_hhouse(void)
{
    int sc = I("sc");
    vscale(V("H"), sc);
    vscale(V("X"), sc);
    ret = armas_hhouse(V("H"), V("X"), V("T"), I("fl"), cf);
    vscale(V("H"), -sc);
    if (ret < 0) vscale(V("X"), -sc);
}
OP(houseapply, R(armas_houseapply(V("A"), V("T"), V("H"), V("W"), I("fl"), cf)))
OP(houseapply2x1, R(armas_houseapply2x1(V("X"), V("A"), V("T"), V("H"), V("W"), I("fl"), cf)))
OP(hhouse_apply, R(armas_hhouse_apply(V("T"), V("H"), V("X"), V("A"), V("W"), I("fl"), cf)))
OP(housemult, R(armas_housemult(V("X"), V("T"), V("Q"), I("fl"), cf)))
WOP(housemult_w, armas_housemult_w(V("X"), V("T"), V("Q"), I("fl"), wb, cf))
static void f_gvcompute(void)
{
    int sc = I("sc");
    double c, s, r;
    armas_gvcompute(&c, &s, &r, ldexp(AT(V("X"), 0), sc), ldexp(AT(V("X"), 1), sc));
    armas_set_at_unsafe(V("Y"), 0, c);
    armas_set_at_unsafe(V("Y"), 1, s);
    armas_set_at_unsafe(V("Y"), 2, ldexp(r, -sc));
}
OP(gvrot_vec, R(armas_gvrot_vec(V("X"), V("Y"), AT(V("C"), 0), AT(V("C"), 1))))
OP(gvleft, armas_gvleft(V("A"), AT(V("C"), 0), AT(V("C"), 1), I("k1"), I("k2"), I("lo"), I("n")))
OP(gvright, armas_gvright(V("A"), AT(V("C"), 0), AT(V("C"), 1), I("k1"), I("k2"), I("lo"), I("n")))
OP(gvupdate, R(armas_gvupdate(V("A"), I("lo"), V("C"), V("S"), I("n"), I("fl"))))
OP(mult_diag, R(armas_mult_diag(V("A"), D("al"), V("D"), I("fl"), cf)))
OP(solve_diag, R(armas_solve_diag(V("A"), D("al"), V("D"), I("fl"), cf)))
OP(mult_rbt, R(armas_mult_rbt(V("A"), V("R"), I("fl"), cf)))
OP(update2_rbt, R(armas_update2_rbt(V("A"), V("U"), V("V"), cf)))
extern int armas_d_size_rbt(int *, int, int);
static void f_size_rbt(void)
{
    int fact = 0;
    outint("val", armas_d_size_rbt(I("wf") ? &fact : 0, I("n"), I("d")));
    if (I("wf")) outint("fact", fact);
}
OP(sort_vec, armas_sort_vec(V("D"), I("dirn")))
OP(abs_sort_vec, armas_abs_sort_vec(V("D"), I("dirn")))
OP(qsort_vec, R(armas_qsort_vec(V("D"), I("dirn"))))
OP(sort_eigenvec, R(armas_sort_eigenvec(V("D"), V("U"), V("V"), V("C"), I("dirn"))))
OP(inverse_trm, R(armas_inverse_trm(V("A"), I("fl"), cf)))
static void f_qdroots(void)
{
    double x1, x2;
    ret = armas_qdroots(&x1, &x2, I("a"), I("b"), I("c"));
    armas_set_at_unsafe(V("Y"), 0, x1);
    armas_set_at_unsafe(V("Y"), 1, x2);
}
static void f_discriminant(void)
{
    double d;
    armas_discriminant(&d, ldexp(1, 27) + I("j"), ldexp(1, 27) + I("i"), ldexp(1, 27) + I("l"));
    outint("val", (long)d);
}

/* ---- singular values, eigenvalues ------------------------------------------------------------- */
extern double armas_d_bdsvd2x2(double *, double *, double, double, double);
extern void armas_d_bdsvd2x2_vec(double *, double *, double *, double *, double *, double *, double, double, double);
extern void armas_d_sym_eigen2x2(double *, double *, double, double, double);
extern void armas_d_sym_eigen2x2vec(double *, double *, double *, double *, double, double, double);
static void putv(armas_dense_t *y, const double *v, int n) { for (int i = 0; i < n; i++) armas_set_at_unsafe(y, i, v[i]); }
OP(svd, R(armas_svd(V("S"), V("U"), V("V"), V("A"), I("fl"), cf)))
WOP(svd_w, armas_svd_w(V("S"), V("U"), V("V"), V("A"), I("fl"), wb, cf))
OP(bdsvd, R(armas_bdsvd(V("D"), V("E"), V("U"), V("V"), I("fl"), cf)))
WOP(bdsvd_w, armas_bdsvd_w(V("D"), V("E"), V("U"), V("V"), I("fl"), wb, cf))
OP(dqds, R(armas_dqds(V("D"), V("E"), cf)))
WOP(dqds_w, armas_dqds_w(V("D"), V("E"), wb, cf))
OP(eigen_sym, R(armas_eigen_sym(V("D"), V("A"), I("fl"), cf)))
WOP(eigen_sym_w, armas_eigen_sym_w(V("D"), V("A"), I("fl"), wb, cf))
OP(trdeigen, R(armas_trdeigen(V("D"), V("E"), V("V"), I("fl"), cf)))
WOP(trdeigen_w, armas_trdeigen_w(V("D"), V("E"), V("V"), I("fl"), wb, cf))
static const armas_eigen_parameter_t *sel(void)
{
    static armas_eigen_parameter_t p;
    const char *s = S("sel");
    memset(&p, 0, sizeof(p));
    if (!strcmp(s, "int")) {
        p.ileft = I("lo");
        p.iright = I("hi");
    } else if (!strcmp(s, "val")) {
        p.left = I("lo") / 2.0;
        p.right = I("hi") / 2.0;
    } else {
        p.ileft = p.iright = -1;
        if (I("np")) return 0;
    }
    return &p;
}
OP(eigen_sym_selected, R(armas_eigen_sym_selected(V("D"), V("A"), sel(), I("fl"), cf)))
WOP(eigen_sym_selected_w, armas_eigen_sym_selected_w(V("D"), V("A"), sel(), I("fl"), wb, cf))
OP(trdbisect, R(armas_trdbisect(V("Y"), V("D"), V("E"), sel(), cf)))
OP(trdsec_solve, R(armas_trdsec_solve(V("Y"), V("D"), V("Z"), V("W"), I("rho"), cf)))
OP(trdsec_solve_vec, R(armas_trdsec_solve_vec(V("Y"), V("V"), V("Q"), V("D"), V("Z"), I("rho"), cf)))
static void f_trdsec_eigen(void)
{
    armas_dense_t *q = V("Q");
    R(armas_trdsec_eigen(q, V("V"), S("P") && !I("np") ? V("P") : I("np") ? 0 : q, cf));
}
static void f_bdsvd2x2(void)
{
    double v[2];
    armas_d_bdsvd2x2(v, v + 1, I("f"), I("g"), I("h"));
    putv(V("Y"), v, 2);
}
static void f_bdsvd2x2_vec(void)
{
    double v[6];
    armas_d_bdsvd2x2_vec(v, v + 1, v + 2, v + 3, v + 4, v + 5, I("f"), I("g"), I("h"));
    putv(V("Y"), v, 6);
}
static void f_sym_eigen2x2(void)
{
    double v[2];
    armas_d_sym_eigen2x2(v, v + 1, I("f"), I("g"), I("h"));
    putv(V("Y"), v, 2);
}
static void f_sym_eigen2x2vec(void)
{
    double v[4];
    armas_d_sym_eigen2x2vec(v, v + 1, v + 2, v + 3, I("f"), I("g"), I("h"));
    putv(V("Y"), v, 4);
}

static const vopent_t tab[] = {
    E(svd), E(svd_w), E(bdsvd), E(bdsvd_w), E(dqds), E(dqds_w), E(eigen_sym), E(eigen_sym_w), E(trdeigen), E(trdeigen_w),
    E(eigen_sym_selected), E(eigen_sym_selected_w), E(trdbisect), E(trdsec_solve), E(trdsec_solve_vec), E(trdsec_eigen),
    E(bdsvd2x2), E(bdsvd2x2_vec), E(sym_eigen2x2), E(sym_eigen2x2vec),
    E(house), E(hhouse), E(houseapply), E(houseapply2x1), E(hhouse_apply), E(housemult), E(housemult_w), E(gvcompute),
    E(gvrot_vec), E(gvleft), E(gvright), E(gvupdate), E(mult_diag), E(solve_diag), E(mult_rbt), E(update2_rbt), E(size_rbt),
    E(sort_vec), E(abs_sort_vec), E(qsort_vec), E(sort_eigenvec), E(inverse_trm), E(qdroots), E(discriminant),
    E(hessreduce), E(hessreduce_w), E(hessmult), E(hessmult_w), E(bdreduce), E(bdreduce_w), E(bdmult), E(bdmult_w), E(bdbuild), E(bdbuild_w), E(trdreduce), E(trdreduce_w), E(trdmult), E(trdmult_w), E(trdbuild), E(trdbuild_w),
    E(qrfactor), E(qrfactor_w), E(qrmult), E(qrmult_w), E(qrbuild), E(qrbuild_w), E(qrreflector),
    E(qrsolve), E(qrsolve_w),
    E(qlfactor), E(qlfactor_w), E(qlmult), E(qlmult_w), E(qlbuild), E(qlbuild_w), E(qlreflector),
    E(lqfactor), E(lqfactor_w), E(lqmult), E(lqmult_w), E(lqbuild), E(lqbuild_w), E(lqreflector),
    E(lqsolve), E(lqsolve_w),
    E(rqfactor), E(rqfactor_w), E(rqmult), E(rqmult_w), E(rqbuild), E(rqbuild_w), E(rqreflector),
    E(qrtfactor), E(qrtfactor_w),
    E(ldlfactor), E(ldlfactor_w), E(ldlsolve), {"ldlsolve_f", f_ldlsolve}, E(ldlinverse), E(ldlinverse_w),
    E(bkfactor), E(bkfactor_w), E(bksolve), E(bksolve_w),
    E(cholfactor), E(cholesky), E(cholfactor_w), E(cholsolve), {"cholsolve_f", f_cholsolve}, E(cholinverse),
    E(cholinverse_w), E(cholupdate),
    E(pivot), E(pivot_rows), E(pivot_cols), E(pivot_sort), E(pivot_index), E(poison),
    E(lufactor), E(lusolve), {"lusolve_f", f_lusolve}, E(luinverse), E(luinverse_w),
};
void vm_lapack_init(void) { vm_register(tab, sizeof(tab) / sizeof(tab[0])); }
