#include "vm.h"
#include "accel.h"
#include <dirent.h>
#include <unistd.h>
#define OP(n, ...) static void f_##n(void) { __VA_ARGS__; }
#define R(x) ret = (x)
#define E(n) { #n, f_##n }
extern void vs_reset(long, const char *) __attribute__((weak));
extern int vs_live(void) __attribute__((weak));
extern int vs_blocks(void) __attribute__((weak));
extern void vs_forget(void) __attribute__((weak));
extern void vs_quiesce(void *) __attribute__((weak));
extern void vs_drain(void) __attribute__((weak));
extern void vs_off(void) __attribute__((weak));
extern long vs_late __attribute__((weak)), vs_steps __attribute__((weak));

static int threads(void)
{
    int n = 0;
    DIR *d = opendir("/proc/self/task");
    while (d && readdir(d)) n++;
    if (d) closedir(d);
    return n - 3;
}
static void settle(void)
{
    if (vs_quiesce) { vs_quiesce(__builtin_frame_address(0)); return; }
    usleep(2000);
}
OP(ac_init, if (cf->accel) armas_ac_release(cf->accel); cf->accel = 0; if (vs_reset) { vs_drain(); armas_cbuf_create_thread_global(); armas_getenv(); armas_ac_getenv(); vs_forget(); vs_reset(I("seed"), S("how")); }
   R(armas_ac_init(&cf->accel, S("kind"))))
/* threads left and accesses to memory that is not in use any more */
OP(ac_release, armas_ac_release(cf->accel); cf->accel = 0; settle();
   int n; for (int k = 0; k < 500 && (n = vs_live ? vs_live() : threads()) > 0 && !vs_live; k++) usleep(10000);
   outint("live", n); outint("late", vs_live ? vs_late : 0); outint("held", vs_live ? vs_blocks() : 0); if (vs_off) { vs_off(); vs_drain(); } R(0))
OP(ac_quiesce, settle(); outint("late", vs_live ? vs_late : 0); outint("steps", vs_live ? vs_steps : 0); R(0))
static const vopent_t tab[] = { E(ac_init), E(ac_release), E(ac_quiesce) };
void vm_accel_init(void) { vm_register(tab, sizeof(tab) / sizeof(tab[0])); }
