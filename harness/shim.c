/* OpenMP runtime stand-in on plain pthreads, so that (a) ThreadSanitizer sees every synchronisation edge of a team and nothing else,
   and (b) the order in which the team members run can be chosen: mode 0 = real concurrency, mode 1 = one member at a time, switched
   at barriers, locks, atomics and member ends by a seeded choice. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include <sched.h>
#include <stdbool.h>
#define MAXT 256
enum { READY, ATBAR, LOCKED, DONE };
typedef struct Team { int n; void (*fn)(void*); void *data; pthread_barrier_t bar; int state[MAXT]; void *wait[MAXT]; int cur; pthread_cond_t cv[MAXT];
    pthread_mutex_t wm; long ws_gen[MAXT]; struct WS { long gen; long next,end,incr,chunk; int single; void*cp; int left; } ws[4]; } Team;
typedef struct Th { Team *tm; int id; } Th;
static __thread Team *me_team; static __thread int me_id; static __thread int me_depth;
static int nthr=1, smode=0; static uint64_t srng=1; 
static pthread_mutex_t SM=PTHREAD_MUTEX_INITIALIZER;     /* token mode only */
static pthread_mutex_t ATOM=PTHREAD_MUTEX_INITIALIZER, CRIT=PTHREAD_MUTEX_INITIALIZER;
/* statistics, kept where the monitor can read them (see main.c) */
typedef struct { long regions, members, decisions, sync, preempt; uint64_t hash; } ShimStat; ShimStat shim_stat; 
static uint64_t rn(void){ uint64_t z=(srng+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
void shim_config(uint64_t seed,int mode,int threads){ srng=seed; smode=mode; nthr=threads<1?1:threads>MAXT?MAXT:threads; memset(&shim_stat,0,sizeof shim_stat); shim_stat.hash=1469598103934665603ull; }
/* ---- token mode ---- */
static void pick_next(Team*t){ /* SM held */
    int r[MAXT],k=0,atbar=0,locked=0; 
    for(int i=0;i<t->n;i++){ if(t->state[i]==READY) r[k++]=i; else if(t->state[i]==ATBAR) atbar++; else if(t->state[i]==LOCKED) locked++; }
    if(!k){ if(atbar&&!locked){ int done=0; for(int i=0;i<t->n;i++) done+=t->state[i]==DONE; if(done){ fprintf(stderr,"ERROR: team barrier not reached by %d of %d members (deadlock)\n",done,t->n); fflush(NULL); _exit(97); }
            for(int i=0;i<t->n;i++) if(t->state[i]==ATBAR){ t->state[i]=READY; r[k++]=i; } }
        else if(locked){ fprintf(stderr,"ERROR: deadlock: %d team members wait for locks nobody will release\n",locked); fflush(NULL); _exit(97); }
        else { t->cur=-1; return; } }
    int c=k>1?(int)(rn()%k):0; if(k>1){ shim_stat.decisions++; shim_stat.hash=(shim_stat.hash^(uint64_t)r[c]^((uint64_t)k<<20))*1099511628211ull; }
    t->cur=r[c]; pthread_cond_signal(&t->cv[t->cur]); }
static void wait_turn(Team*t,int id){ while(t->cur!=id) pthread_cond_wait(&t->cv[id],&SM); }
static void tok_yield(int st){ Team*t=me_team; if(!t||t->n<2) return; pthread_mutex_lock(&SM); t->state[me_id]=st; pick_next(t); wait_turn(t,me_id); pthread_mutex_unlock(&SM); }
static void maybe_yield(void){ if(smode==1&&me_team&&me_team->n>1){ shim_stat.sync++; if(rn()&1) tok_yield(READY); } }
/* called for every memory access of the library when it is built for preemption */
static long countdown; static long span=50;
void shim_access(void){ Team*t=me_team; if(!t||t->n<2||smode!=1) return; if(--countdown>0) return; countdown=1+(long)(rn()%(uint64_t)span); shim_stat.preempt++; tok_yield(READY); }
static void new_span(void){ static const long S[]={3,12,40,150,600,1000000}; span=S[rn()%6]; countdown=1+(long)(rn()%(uint64_t)span); }
static void *tmain(void*a){ Th*h=a; me_team=h->tm; me_id=h->id; me_depth=1; Team*t=h->tm;
    if(smode==1){ pthread_mutex_lock(&SM); wait_turn(t,me_id); pthread_mutex_unlock(&SM); }
    t->fn(t->data);
    if(smode==1){ pthread_mutex_lock(&SM); t->state[me_id]=DONE; pick_next(t); if(t->cur<0) for(int i=0;i<t->n;i++) pthread_cond_signal(&t->cv[i]); pthread_mutex_unlock(&SM); }
    return NULL; }
static void wsfin(Team*);
void GOMP_parallel(void (*fn)(void*),void*data,unsigned num,unsigned flags){
    int n=num?(int)num:nthr; if(me_depth>0) n=1; if(n>MAXT) n=MAXT;
    Team*old=me_team; int oid=me_id; 
    if(n<=1){ Team one; memset(&one,0,sizeof one); one.n=1; pthread_mutex_init(&one.wm,NULL); me_team=&one; me_id=0; me_depth++; fn(data); me_depth--; me_team=old; me_id=oid; pthread_mutex_destroy(&one.wm); return; }
    Team*t=calloc(1,sizeof *t); t->n=n; t->fn=fn; t->data=data; pthread_barrier_init(&t->bar,NULL,n); pthread_mutex_init(&t->wm,NULL); for(int i=0;i<n;i++) pthread_cond_init(&t->cv[i],NULL);
    if(smode==1) pthread_mutex_lock(&SM);   /* members see a complete team */
    t->cur=-2; pthread_t th[MAXT]; Th hs[MAXT]; 
    for(int i=1;i<n;i++){ hs[i].tm=t; hs[i].id=i; if(pthread_create(&th[i],NULL,tmain,&hs[i])){ fprintf(stderr,"shim: thread creation failed\n"); _exit(96); } }
    me_team=t; me_id=0; me_depth=1; shim_stat.regions++; if(smode==1) new_span(); shim_stat.members+=n;
    if(smode==1){ pick_next(t); wait_turn(t,0); pthread_mutex_unlock(&SM); } else { uint64_t z=rn()%4; if(z==0) sched_yield(); else if(z==1) usleep(30); }
    fn(data);
    if(smode==1){ pthread_mutex_lock(&SM); t->state[0]=DONE; pick_next(t); while(t->cur!=-1) pthread_cond_wait(&t->cv[0],&SM); pthread_mutex_unlock(&SM); }
    for(int i=1;i<n;i++) pthread_join(th[i],NULL);
    me_team=old; me_id=oid; me_depth=0; pthread_barrier_destroy(&t->bar); pthread_mutex_destroy(&t->wm); for(int i=0;i<n;i++) pthread_cond_destroy(&t->cv[i]); free(t); }
void GOMP_barrier(void){ Team*t=me_team; if(!t||t->n<2) return; if(smode==1) tok_yield(ATBAR); else pthread_barrier_wait(&t->bar); }
static void lk(pthread_mutex_t*m){ if(smode==1&&me_team&&me_team->n>1){ maybe_yield(); while(pthread_mutex_trylock(m)){ Team*t=me_team; t->wait[me_id]=m; tok_yield(LOCKED); } } else pthread_mutex_lock(m); }
static void ulk(pthread_mutex_t*m){ pthread_mutex_unlock(m); if(smode==1&&me_team&&me_team->n>1){ Team*t=me_team; pthread_mutex_lock(&SM); for(int i=0;i<t->n;i++) if(t->state[i]==LOCKED&&t->wait[i]==m) t->state[i]=READY; pthread_mutex_unlock(&SM); maybe_yield(); } }
void GOMP_atomic_start(void){ lk(&ATOM); } void GOMP_atomic_end(void){ ulk(&ATOM); }
void GOMP_critical_start(void){ lk(&CRIT); } void GOMP_critical_end(void){ ulk(&CRIT); }
static pthread_mutex_t NM=PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t *named(void**p){ pthread_mutex_lock(&NM); if(!*p){ pthread_mutex_t*m=malloc(sizeof *m); pthread_mutex_init(m,NULL); *p=m; } pthread_mutex_t*m=*p; pthread_mutex_unlock(&NM); return m; }
void GOMP_critical_name_start(void**p){ lk(named(p)); } void GOMP_critical_name_end(void**p){ ulk(named(p)); }
int omp_get_max_threads(void){ return nthr; } int omp_get_num_threads(void){ return me_team?me_team->n:1; } int omp_get_thread_num(void){ return me_team?me_id:0; }
int omp_get_num_procs(void){ return 8; } int omp_in_parallel(void){ return me_team&&me_team->n>1; } int omp_get_thread_limit(void){ return MAXT; } int omp_get_level(void){ return me_depth; } int omp_get_dynamic(void){ return 0; } void omp_set_dynamic(int x){} void omp_set_nested(int x){} int omp_get_nested(void){ return 0; }
void omp_set_num_threads(int n){ if(n>0) nthr=n>MAXT?MAXT:n; }
double omp_get_wtime(void){ return 0; }
typedef struct { pthread_mutex_t *m; } OL;
void omp_init_lock(void*l){ pthread_mutex_t*m=malloc(sizeof *m); pthread_mutex_init(m,NULL); *(int*)l=0; extern void shim_lock_put(void*,void*); shim_lock_put(l,m); }
/* omp_lock_t is 4 bytes in libgomp's ABI: keep the mutexes in a side table */
static pthread_mutex_t LT=PTHREAD_MUTEX_INITIALIZER; typedef struct LE { void*k; pthread_mutex_t*m; struct LE*nx; } LE; static LE*LH[1024];
static unsigned hk(void*p){ return (unsigned)(((uintptr_t)p>>2)*2654435761u)>>22; }
void shim_lock_put(void*k,void*m){ pthread_mutex_lock(&LT); LE*e=malloc(sizeof *e); e->k=k; e->m=m; e->nx=LH[hk(k)]; LH[hk(k)]=e; pthread_mutex_unlock(&LT); }
/* lookups take no lock, so that they add no ordering between team members (the table only changes outside regions or before use) */
__attribute__((no_sanitize("thread"))) static pthread_mutex_t *lget(void*k){ for(LE*e=LH[hk(k)];e;e=e->nx) if(e->k==k) return e->m; fprintf(stderr,"ERROR: use of an uninitialised or destroyed OpenMP lock\n"); fflush(NULL); _exit(97); }
void omp_destroy_lock(void*k){ pthread_mutex_lock(&LT); LE**p=&LH[hk(k)]; while(*p&&(*p)->k!=k) p=&(*p)->nx; if(!*p){ fprintf(stderr,"ERROR: destruction of an uninitialised OpenMP lock\n"); fflush(NULL); _exit(97);} LE*e=*p; *p=e->nx; if(pthread_mutex_trylock(e->m)){ fprintf(stderr,"ERROR: destruction of a held OpenMP lock\n"); fflush(NULL); _exit(97);} pthread_mutex_unlock(e->m); pthread_mutex_destroy(e->m); free(e->m); free(e); pthread_mutex_unlock(&LT); }
void omp_set_lock(void*k){ lk(lget(k)); } void omp_unset_lock(void*k){ ulk(lget(k)); }
int omp_test_lock(void*k){ return !pthread_mutex_trylock(lget(k)); }
/* ---- work sharing constructs other than static loops and single/sections, in case the code comes to use them ---- */
static struct WS* wsnext(Team*t,int*first){ long g=++t->ws_gen[me_id]; struct WS*w=&t->ws[g&3]; if(w->gen!=g){ memset(w,0,sizeof *w); w->gen=g; w->left=t->n; *first=1; } else *first=0; return w; }
static __thread struct WS *curws;
static bool lstart(long s,long e,long inc,long ch,long*a,long*b){ Team*t=me_team; static Team none; if(!t){ *a=s;*b=e; return inc>0?s<e:s>e; } lk(&t->wm); int f; struct WS*w=wsnext(t,&f); if(f){ w->next=s;w->end=e;w->incr=inc;w->chunk=ch<1?1:ch; } curws=w; ulk(&t->wm); extern bool shim_lnext(long*,long*); return shim_lnext(a,b); }
bool shim_lnext(long*a,long*b){ Team*t=me_team; struct WS*w=curws; if(!t||!w) return false; lk(&t->wm); bool r=false; if(w->incr>0?w->next<w->end:w->next>w->end){ *a=w->next; *b=w->next+w->chunk*w->incr; if(w->incr>0?*b>w->end:*b<w->end) *b=w->end; w->next=*b; r=true; } ulk(&t->wm); return r; }
#define LOOP(k) bool GOMP_loop_##k##_start(long s,long e,long i,long c,long*a,long*b){ return lstart(s,e,i,c,a,b);} bool GOMP_loop_##k##_next(long*a,long*b){ return shim_lnext(a,b);} 
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
#define LOOPR(k) bool GOMP_loop_##k##_start(long s,long e,long i,long*a,long*b){ return lstart(s,e,i,1,a,b);} bool GOMP_loop_##k##_next(long*a,long*b){ return shim_lnext(a,b);} 
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void){ curws=NULL; GOMP_barrier(); } void GOMP_loop_end_nowait(void){ curws=NULL; }
typedef struct { void(*fn)(void*); void*d; long s,e,i,c; } PL; static PL pl;
static void plrun(void*x){ PL*p=x; Team*t=me_team; lk(&t->wm); int f; struct WS*w=wsnext(t,&f); if(f){ w->next=p->s;w->end=p->e;w->incr=p->i;w->chunk=p->c<1?1:p->c; } curws=w; ulk(&t->wm); p->fn(p->d); }
#define PLOOP(k) void GOMP_parallel_loop_##k(void(*fn)(void*),void*d,unsigned n,long s,long e,long i,long c,unsigned fl){ PL p={fn,d,s,e,i,c}; GOMP_parallel(plrun,&p,n,fl); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided) PLOOP(static)
#define PLOOPR(k) void GOMP_parallel_loop_##k(void(*fn)(void*),void*d,unsigned n,long s,long e,long i,unsigned fl){ PL p={fn,d,s,e,i,1}; GOMP_parallel(plrun,&p,n,fl); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
bool GOMP_single_start(void){ Team*t=me_team; if(!t||t->n<2) return true; lk(&t->wm); int f; wsnext(t,&f); ulk(&t->wm); return f; }
void *GOMP_single_copy_start(void){ Team*t=me_team; if(!t||t->n<2) return NULL; lk(&t->wm); int f; struct WS*w=wsnext(t,&f); curws=w; ulk(&t->wm); if(f) return NULL; GOMP_barrier(); return w->cp; }
void GOMP_single_copy_end(void*p){ if(me_team&&me_team->n>1){ curws->cp=p; GOMP_barrier(); } }
unsigned GOMP_sections_next(void){ long a,b; return shim_lnext(&a,&b)?(unsigned)a:0; }
unsigned GOMP_sections_start(unsigned n){ long a,b; return lstart(1,(long)n+1,1,1,&a,&b)?(unsigned)a:0; }
void GOMP_sections_end(void){ GOMP_loop_end(); } void GOMP_sections_end_nowait(void){ curws=NULL; }
typedef struct { void(*fn)(void*); void*d; long n; } PS;
void GOMP_parallel_sections(void(*fn)(void*),void*d,unsigned n,unsigned cnt,unsigned fl){ PL p={fn,d,1,(long)cnt+1,1,1}; GOMP_parallel(plrun,&p,n,fl); }
void GOMP_task(void(*fn)(void*),void*d,void(*cpy)(void*,void*),long sz,long al,bool c,unsigned fl,void**dep,int pr,void*det){ if(cpy){ char*b=malloc(sz+al); char*q=(char*)(((uintptr_t)b+al-1)/al*al); cpy(q,d); fn(q); free(b);} else fn(d); }
void GOMP_taskwait(void){} void GOMP_taskgroup_start(void){} void GOMP_taskgroup_end(void){} void GOMP_taskyield(void){}
