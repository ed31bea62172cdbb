/* Monitoring framework: shared record, PRNG, reference model, observation of live matrices. */
#ifndef MON_H
#define MON_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <math.h>
#include <complex.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <fcntl.h>
#include <errno.h>
#include <omp.h>
#include "bml.h"
#include "bml_transpose_triangle.h"
#include "bml_adjungate_triangle.h"
#include "bml_types_private.h"
#include "bml_types_dense.h"
#include "bml_types_ellpack.h"
#include "bml_types_csr.h"
#include "bml_types_ellblock.h"
#include "bml_allocate_ellblock.h"

typedef long double ld;
typedef long double complex cld;
#define NMAX 1040
#define MAXSLOT 8
#define MAXOPS 128
#define MAXKEYS 60000

/* ---- record shared between a case (child) and its worker (parent) ---- */
typedef struct {
    volatile char op[48];          /* operation in flight */
    volatile char detail[1600];    /* its arguments (replayable text) */
    volatile int in_lib;           /* 1 while inside the library */
    volatile int refuse_ok;        /* 1 if a reported error is an acceptable outcome now */
    volatile int refuse_must;      /* 1 if returning normally is the violation (set by caller) */
    volatile int done;             /* case ended normally */
    volatile int nfail;
    char fclass[24]; char fop[48]; char ftext[2400];
    long ops_total, checks_total, elems_total;  /* accumulated over all cases of the worker */
    long op_count[MAXOPS];
    long refused, blocked, setups, nover, owned_done, nontriv, nhostile_ok, regions, members, decisions, syncs, preempts;
    uint32_t nkeys; uint32_t keys[MAXKEYS];
    char history[24000]; int hlen;  /* human readable history of the current case */
    char sample[3000];
    volatile long alloc_seen; uint32_t alloc_site[16384]; volatile long alloc_fail_at; volatile int alloc_failed;
} Shared;
extern Shared *SH;

/* ---- PRNG ---- */
typedef struct { uint64_t s; } Rng;
uint64_t rnd64(Rng *r);
int rint_(Rng *r, int lo, int hi);
double runi(Rng *r);
#define CH(c,n) (rint_(&(c)->r,0,(n)-1)==0)

typedef struct {
    bml_matrix_t *A; int N, M; bml_matrix_type_t t; bml_matrix_precision_t p;
    cld *v;             /* model value = last observed value */
    uint64_t hash; int live; int id; int odd; /* came out of operations confined to one matrix */
} Slot;

typedef struct Ctx {
    Rng r; bml_matrix_type_t t; bml_matrix_precision_t p;
    int N, M, threads, vmode, mmode;
    Slot s[MAXSLOT]; int nslot;
    int blocked;
    double eps;
    const struct Profile *prof;
    int bs[NMAX], nb;           /* block partition when t==ellblock */
    uint32_t casekey;
    char tmpdir[256];
    int verbose;
    int exactbits; int usedblk;
    int local;                  /* 1 in the part of a parallel run where every rank works alone */
    int only;                   /* 1 + the slot operations are confined to, 0 for none */
    int dist, rank, nranks, fileno; long no;   /* dist: processes per side of a distributed matrix, 0 when matrices are local */
} Ctx;

typedef int (*opfn)(Ctx *);
typedef struct { const char *name; opfn f; } Op;
extern const Op OPS[]; extern const int NOPS;

typedef struct Profile {
    const char *id;
    const char *setup;       /* "op:weight ..." not owned */
    const char *own;         /* owned ops, with weights */
    const char *classes;     /* owned failure classes, "" = all */
    int types;               /* bitmask: 1 dense 2 ellpack 4 csr 8 ellblock */
    int mmode;               /* 0: M=N ; 1: sometimes M<N with room ; 2: tight capacity */
    int nmaxsz, minops, maxops;
    int flags;
} Profile;
#define PF_NOOVL 1
#define PF_BIGN 2
#define PF_READBACK 4
#define PF_THREADS 8
#define PF_NOISE 16

extern long double TOLs[NMAX*NMAX], DROPs[NMAX*NMAX];
extern cld EXPv[NMAX*NMAX];

void fail(Ctx *c, const char *cls, const char *fmt, ...);
void op_begin(Ctx *c, const char *name, const char *fmt, ...);
void op_end(Ctx *c);
void key(Ctx *c, uint32_t k);
extern Ctx *CURCTX;
size_t esize(bml_matrix_precision_t p);
cld eget(const void *p, size_t i, bml_matrix_precision_t pr);
void eset(void *p, size_t i, bml_matrix_precision_t pr, cld v);
cld roundp(cld v, bml_matrix_precision_t pr);
int is_cplx(bml_matrix_precision_t p);
double epsof(bml_matrix_precision_t p);
const char *tname(bml_matrix_type_t t);
const char *pname(bml_matrix_precision_t p);
void observe(Ctx *c, Slot *s, cld *out, int *stored);
int slot_maxnnz(Ctx *c, Slot *s);
void verify(Ctx *c, Slot *s);
void verify_alt(Ctx *c, Slot *s);
extern cld ALTv[NMAX*NMAX]; extern unsigned char ALTon[NMAX*NMAX];
void verify_bits(Ctx *c, Slot *s, const char *what);
extern uint64_t (*dist_observe)(Ctx *c, Slot *s, cld *out, int *stored);
uint64_t observe_local(Ctx *c, Slot *s, cld *out, int *stored);
extern int HISTQUIET;
void resync(Ctx *c, Slot *s);
void verify_const(Ctx *c, int mask_modified);
void verify_scalar(Ctx *c, const char *what, long double got, long double exp, long double tol);
void readback(Ctx *c, Slot *s);
int new_slot_idx(Ctx *c);
void adopt(Ctx *c, int k, bml_matrix_t *A, bml_matrix_type_t t, bml_matrix_precision_t p, int N, int M);
void drop_slot(Ctx *c, int k);
cld gen_value(Ctx *c);
void gen_dense(Ctx *c, int N, cld *v, int maxrow);
double gen_thr(Ctx *c, Slot *s);
void limit_rows(Ctx *c, int N, cld *v, int maxrow);
#define LIB(stmt) do { SH->in_lib = 1; stmt; SH->in_lib = 0; } while (0)
void track_reset(void);
int track_live(char *buf, int n);
void track_mark_safe(void *p);
extern int track_on;
static inline ld cab(cld z){ return cabsl(z); }
static inline int block_of(Ctx *c, int i){ int b=0; while(i>=c->bs[b]){i-=c->bs[b];b++;} return b; }
#endif
