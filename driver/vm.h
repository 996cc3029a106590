/* Small "virtual machine": executes a text script of library calls and writes one JSON
 * line of observations per command.  See mbv/run.py for the protocol. */
#ifndef VM_H
#define VM_H 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <ctype.h>
#include "dtype.h"
#include "dlpack.h"
#include "armas.h"
#include "matrix.h"
#include "sparse.h"

#define SENTINEL 2147483647
#define GUARD 64

typedef struct {
    char name[24];
    int kind;          // 'd' doubles, 'i' ints
    int n, sc, approx; // length, binary scale, approximate (rounded) encoding
    double *raw, *d, *old;
    int *iraw, *iv, *iold;
} vbuf_t;

typedef void (*vop_t)(void);
typedef struct { const char *name; vop_t fn; } vopent_t;

extern armas_conf_t *cf;
extern long ret;
extern int has_val;

armas_dense_t *V(const char *key);          // view argument or NULL
armas_pivot_t *P(const char *key);          // pivot argument or NULL
double D(const char *key);                  // double argument
long I(const char *key);                    // integer argument (0 if absent)
const char *S(const char *key);             // raw argument or NULL
vbuf_t *BUF(const char *name);
void outval(const char *name, double v, int sc, int approx);
void outint(const char *name, long v);
void outraw(const char *name, const char *json);
long enc(double v, int sc, int approx);
void encpair(double v, int hb, char *t);
void outdig(const char *name, double v);
void outpair(const char *name, double v, int hb);
void vm_on(int t, void (*fn)(void));          // on another thread, waiting for it
void nanstack(void);
int vm_dirty(void);                         // buffers changed since the call began
extern long vm_live;                         // heap blocks in use (not with the sanitizer)
extern FILE *vmout;
void vm_register(const vopent_t *ops, int n);
#endif
