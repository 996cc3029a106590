/* BLAS entry points with reference argument lists, see spec/Compat.tla */
#include "vm.h"
#pragma weak dasum_
#pragma weak dnrm2_
#pragma weak ddot_
#pragma weak idamax_
#pragma weak daxpy_
#pragma weak dcopy_
#pragma weak dswap_
#pragma weak dscal_
#pragma weak drot_
#pragma weak drotg_
#pragma weak dgemv_
#pragma weak dsymv_
#pragma weak dger_
#pragma weak dsyr_
#pragma weak dsyr2_
#pragma weak dtrmv_
#pragma weak dtrsv_
#pragma weak dgemm_
#pragma weak dsymm_
#pragma weak dsyrk_
#pragma weak dsyr2k_
#pragma weak dtrmm_
#pragma weak dtrsm_
#pragma weak cblas_dgemm
#pragma weak cblas_dsymm
#pragma weak cblas_dtrmm
#pragma weak cblas_dtrsm
double dasum_(int *, double *, int *), dnrm2_(int *, double *, int *), ddot_(int *, double *, int *, double *, int *);
int idamax_(int *, double *, int *);
void daxpy_(int *, double *, double *, int *, double *, int *);
void dcopy_(int *, double *, int *, double *, int *), dswap_(int *, double *, int *, double *, int *);
void dscal_(int *, double *, double *, int *);
void drot_(int *, double *, int *, double *, int *, double *, double *), drotg_(double *, double *, double *, double *);
void dgemv_(char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dsymv_(char *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dger_(int *, int *, double *, double *, int *, double *, int *, double *, int *);
void dsyr_(char *, int *, double *, double *, int *, double *, int *);
void dsyr2_(char *, int *, double *, double *, int *, double *, int *, double *, int *);
void dtrmv_(char *, char *, char *, int *, double *, int *, double *, int *);
void dtrsv_(char *, char *, char *, int *, double *, int *, double *, int *);
void dgemm_(char *, char *, int *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dsymm_(char *, char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dsyrk_(char *, char *, int *, int *, double *, double *, int *, double *, double *, int *);
void dsyr2k_(char *, char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dtrmm_(char *, char *, char *, char *, int *, int *, double *, double *, int *, double *, int *);
void dtrsm_(char *, char *, char *, char *, int *, int *, double *, double *, int *, double *, int *);
void cblas_dgemm(int, int, int, int, int, int, double, double *, int, double *, int, double, double *, int);
void cblas_dsymm(int, int, int, int, int, double, double *, int, double *, int, double, double *, int);
void cblas_dtrmm(int, int, int, int, int, int, int, double, double *, int, double *, int);
void cblas_dtrsm(int, int, int, int, int, int, int, double, double *, int, double *, int);

typedef struct { double *p; int inc; } ad_t;
static ad_t A(const char *key)
{
    ad_t a = {0, 0};
    char t[64], *s;
    snprintf(t, sizeof t, "%s", S(key) ? S(key) : "");
    if (!(s = strchr(t, ','))) return a;
    *s++ = 0;
    a.p = BUF(t)->d + strtol(s, &s, 10);
    a.inc = (int)strtol(s + 1, 0, 10);
    return a;
}
static char C(const char *key) { return S(key) ? *S(key) : 'N'; }
static int ctr(char c) { c = toupper(c); return c == 'T' ? 112 : c == 'C' ? 113 : 111; }
static int cup(char c) { return toupper(c) == 'U' ? 121 : 122; }
static int cdg(char c) { return toupper(c) == 'U' ? 132 : 131; }
static int csd(char c) { return toupper(c) == 'R' ? 142 : 141; }
static ad_t a, b, c, x, y;
static int m, n, k;
static double al, be;
static char ta, tb, ul, dg, sd;
static void args(void)
{
    a = A("A"); b = A("B"); c = A("C"); x = A("X"); y = A("Y");
    m = I("m"); n = I("n"); k = I("kk");
    al = S("al") ? D("al") : 0; be = S("be") ? D("be") : 0;
    ta = C("ta"); tb = C("tb"); ul = C("ul"); dg = C("dg"); sd = C("sd");
    ret = 0;
}
#define OP(name, ...) static void f_##name(void) { args(); __VA_ARGS__; }
#define VAL(v) { double v_ = (v); outval("val", v_, I("vs"), I("vs") > 0); }
OP(f_asum, VAL(dasum_(&n, x.p, &x.inc)))
OP(f_nrm2, VAL(dnrm2_(&n, x.p, &x.inc)))
OP(f_dot, VAL(ddot_(&n, x.p, &x.inc, y.p, &y.inc)))
OP(f_iamax, outint("val", idamax_(&n, x.p, &x.inc)))
OP(f_axpy, daxpy_(&n, &al, x.p, &x.inc, y.p, &y.inc))
OP(f_copy, dcopy_(&n, x.p, &x.inc, y.p, &y.inc))
OP(f_swap, dswap_(&n, x.p, &x.inc, y.p, &y.inc))
OP(f_scal, dscal_(&n, &al, x.p, &x.inc))
OP(f_rot, double cc = D("c"), ss = D("s"); drot_(&n, x.p, &x.inc, y.p, &y.inc, &cc, &ss))
OP(f_rotg, double u = D("a"), v = D("b"), cc = 7, ss = 7; drotg_(&u, &v, &cc, &ss);
   outval("r", u, 0, 1); outval("rz", v, 16, 1); outval("rc", cc, 16, 1); outval("rs", ss, 16, 1))
OP(f_gemv, dgemv_(&ta, &m, &n, &al, a.p, &a.inc, x.p, &x.inc, &be, y.p, &y.inc))
OP(f_symv, dsymv_(&ul, &n, &al, a.p, &a.inc, x.p, &x.inc, &be, y.p, &y.inc))
OP(f_ger, dger_(&m, &n, &al, x.p, &x.inc, y.p, &y.inc, a.p, &a.inc))
OP(f_syr, dsyr_(&ul, &n, &al, x.p, &x.inc, a.p, &a.inc))
OP(f_syr2, dsyr2_(&ul, &n, &al, x.p, &x.inc, y.p, &y.inc, a.p, &a.inc))
OP(f_trmv, dtrmv_(&ul, &ta, &dg, &n, a.p, &a.inc, x.p, &x.inc))
OP(f_trsv, dtrsv_(&ul, &ta, &dg, &n, a.p, &a.inc, x.p, &x.inc))
OP(f_gemm, dgemm_(&ta, &tb, &m, &n, &k, &al, a.p, &a.inc, b.p, &b.inc, &be, c.p, &c.inc))
OP(f_symm, dsymm_(&sd, &ul, &m, &n, &al, a.p, &a.inc, b.p, &b.inc, &be, c.p, &c.inc))
OP(f_syrk, dsyrk_(&ul, &ta, &n, &k, &al, a.p, &a.inc, &be, c.p, &c.inc))
OP(f_syr2k, dsyr2k_(&ul, &ta, &n, &k, &al, a.p, &a.inc, b.p, &b.inc, &be, c.p, &c.inc))
OP(f_trmm, dtrmm_(&sd, &ul, &ta, &dg, &m, &n, &al, a.p, &a.inc, b.p, &b.inc))
OP(f_trsm, dtrsm_(&sd, &ul, &ta, &dg, &m, &n, &al, a.p, &a.inc, b.p, &b.inc))
#define CB(o) cblas_dgemm(o, ctr(ta), ctr(tb), m, n, k, al, a.p, a.inc, b.p, b.inc, be, c.p, c.inc)
OP(c_gemm, CB(102))
OP(c_gemm_row, CB(101))
#define CS(o) cblas_dsymm(o, csd(sd), cup(ul), m, n, al, a.p, a.inc, b.p, b.inc, be, c.p, c.inc)
OP(c_symm, CS(102))
OP(c_symm_row, CS(101))
#define CT(o) (o, csd(sd), cup(ul), ctr(ta), cdg(dg), m, n, al, a.p, a.inc, b.p, b.inc)
OP(c_trmm, cblas_dtrmm CT(102))
OP(c_trmm_row, cblas_dtrmm CT(101))
OP(c_trsm, cblas_dtrsm CT(102))
OP(c_trsm_row, cblas_dtrsm CT(101))
#define R(nm) { #nm, f_##nm }
static const vopent_t ops[] = {
    R(f_asum), R(f_nrm2), R(f_dot), R(f_iamax), R(f_axpy), R(f_copy), R(f_swap), R(f_scal), R(f_rot), R(f_rotg),
    R(f_gemv), R(f_symv), R(f_ger), R(f_syr), R(f_syr2), R(f_trmv), R(f_trsv),
    R(f_gemm), R(f_symm), R(f_syrk), R(f_syr2k), R(f_trmm), R(f_trsm),
    R(c_gemm), R(c_gemm_row), R(c_symm), R(c_symm_row), R(c_trmm), R(c_trmm_row), R(c_trsm), R(c_trsm_row),
};
void vm_compat_init(void) { vm_register(ops, sizeof(ops) / sizeof(ops[0])); }
