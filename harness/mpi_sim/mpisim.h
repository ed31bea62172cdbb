#ifndef MPISIM_H
#define MPISIM_H
#include <stdint.h>
#define SIM_MAXR 16
void sim_create(void);                        /* once per worker, before any fork */
void sim_reset(int nranks, uint64_t seed);    /* before the ranks of a case are forked */
void sim_start(int rank);                     /* in the rank's process */
void sim_mark(void);                          /* communicators existing now are permitted to live on */
void sim_finish(void);                        /* all ranks: nothing may be left over */
void sim_exit(void);                          /* the rank ends normally */
typedef struct { long msgs, bytes, sync, switches, colls, comms, delayed; uint64_t hash; } SimStat;
SimStat sim_stats(void);
int sim_isfinished(int rank);
extern struct Ctx *SIMC;
#endif
