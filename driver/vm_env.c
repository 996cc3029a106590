/* The environment: what it was when the process started and what the library made of it. */
#define _GNU_SOURCE
#include "vm.h"
#include "accel.h"
#include <dlfcn.h>
#include <pthread.h>
#include <string.h>
#include <unistd.h>
#define OP(n, ...) static void f_##n(void) { __VA_ARGS__; }
#define R(x) ret = (x)
#define E(n) { #n, f_##n }
static const char *const names[] = { "ARMAS_CONFIG", "ARMAS_CACHE", "ARMAS_AC_CONFIG" };
static char *before[3];

/* processors as told by VM_NPROC */
long sysconf(int n)
{
    static long (*real)(int);
    if (n == _SC_NPROCESSORS_ONLN && getenv("VM_NPROC")) return atol(getenv("VM_NPROC"));
    if (!real) real = dlsym(RTLD_NEXT, "sysconf");
    return real(n);
}
/* pinning is recorded only */
static int npin, pins[64];
static pthread_mutex_t plock = PTHREAD_MUTEX_INITIALIZER;
int pthread_setaffinity_np(pthread_t t, size_t sz, const cpu_set_t *c)
{
    pthread_mutex_lock(&plock);
    for (int i = 0; i < CPU_SETSIZE && npin < 64; i++)
        if (CPU_ISSET(i, c)) pins[npin++] = i;
    pthread_mutex_unlock(&plock);
    return 0;
}
static void same(void)
{
    int ok = 1;
    for (int i = 0; i < 3; i++) {
        const char *s = getenv(names[i]);
        ok &= (s && before[i]) ? strcmp(s, before[i]) == 0 : !s && !before[i];
    }
    outint("same", ok);
}
static void list(const char *k, const int *v, int n)
{
    static char b[16384];
    int m = sprintf(b, "[");
    for (int i = 0; i < n; i++) m += sprintf(b + m, i ? ",%d" : "%d", v[i]);
    sprintf(b + m, "]");
    outraw(k, b);
}
OP(getenv,
   armas_env_t *e = armas_getenv();
   outint("mb", e->mb); outint("nb", e->nb); outint("kb", e->kb); outint("lb", e->lb);
   outint("b1", e->blas1min); outint("b2", e->blas2min); outint("cmem", e->cmem); outint("l1mem", e->l1mem);
   outint("fixed", e->fixed != 0); same(); R(0))
OP(getacenv,
   struct armas_ac_env *e = armas_ac_getenv();
   int v[CPU_SETSIZE]; int n = 0;
   for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &e->cpus)) v[n++] = i;
   outint("cores", e->max_cores); outint("items", e->num_items);
   outint("blocked", (e->options & ARMAS_OBLAS_BLOCKED) != 0); outint("tiled", (e->options & ARMAS_OBLAS_TILED) != 0);
   outint("rr", (e->options & ARMAS_OSCHED_ROUNDROBIN) != 0); outint("rnd", (e->options & ARMAS_OSCHED_RANDOM) != 0);
   outint("two", (e->options & ARMAS_OSCHED_TWO) != 0);
   list("cpus", v, n); same(); R(0))
OP(pins, list("pins", pins, npin); same(); R(0))
static const vopent_t tab[] = { E(getenv), E(getacenv), E(pins) };
void vm_env_init(void)
{
    for (int i = 0; i < 3; i++) {
        const char *s = getenv(names[i]);
        before[i] = s ? strdup(s) : 0;
    }
    vm_register(tab, sizeof(tab) / sizeof(tab[0]));
}
