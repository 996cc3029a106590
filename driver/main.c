#include "vm.h"
extern void vm_blas_init(void);
extern void vm_lapack_init(void);
extern void vm_accel_init(void);
extern void vm_env_init(void);
extern void vm_work_init(void);
extern void vm_dense_init(void);
extern void vm_cbuf_init(void), vm_sparse_init(void);
extern void vm_cbuf_init(void), vm_iter_init(void), vm_io_init(void), vm_compat_init(void);
extern int vm_main(int, char **);
int main(int argc, char **argv)
{
    vm_blas_init();
    vm_lapack_init();
    vm_accel_init();
    vm_env_init();
    vm_work_init();
    vm_dense_init();
    vm_cbuf_init();
    vm_sparse_init();
    vm_iter_init();
    vm_io_init();
    vm_compat_init();
    return vm_main(argc, argv);
}
