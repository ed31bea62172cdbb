#include "mon.h"
#include <pthread.h>
Shared *SH;
long double TOLs[NMAX*NMAX], DROPs[NMAX*NMAX];
cld EXPv[NMAX*NMAX];
int track_on = 1, HISTQUIET = 0;
uint64_t (*dist_observe)(Ctx *c, Slot *s, cld *out, int *stored);

uint64_t rnd64(Rng *r){ uint64_t z=(r->s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
int rint_(Rng *r,int lo,int hi){ if(hi<=lo) return lo; return lo+(int)(rnd64(r)%(uint64_t)(hi-lo+1)); }
double runi(Rng *r){ return (double)(rnd64(r)>>11)/9007199254740992.0; }

/* ---------------- failure reporting ---------------- */
void fail(Ctx *c,const char *cls,const char *fmt,...){
    SH->in_lib=0;
    if(!SH->nfail){
        SH->nfail=1;
        snprintf(SH->fclass,sizeof SH->fclass,"%s",cls);
        snprintf(SH->fop,sizeof SH->fop,"%s",(char*)SH->op);
        va_list ap; va_start(ap,fmt); int n=snprintf(SH->ftext,sizeof SH->ftext,"%s/%s N=%d M=%d thr=%d: ",tname(c->t),pname(c->p),c->N,c->M,c->threads);
        vsnprintf(SH->ftext+n,sizeof SH->ftext-n,fmt,ap); va_end(ap);
    }
    _exit(3);
}
Ctx *CURCTX;
void key(Ctx *c,uint32_t k){ if(SH->nkeys<MAXKEYS) SH->keys[SH->nkeys++]=k; }
int ANYREF=0; /* several ranks, limited room: any of them may have to refuse at any time */
void op_begin(Ctx *c,const char *name,const char *fmt,...){
    snprintf((char*)SH->op,sizeof SH->op,"%s",name);
    va_list ap; va_start(ap,fmt); vsnprintf((char*)SH->detail,sizeof SH->detail,fmt,ap); va_end(ap);
    SH->refuse_ok=ANYREF; SH->refuse_must=0; if(HISTQUIET) return;
    int n=snprintf(SH->history+SH->hlen,sizeof SH->history-SH->hlen,"%s(%s)\n",name,(char*)SH->detail);
    if(n>0&&SH->hlen+n<(int)sizeof SH->history-1) SH->hlen+=n;
    SH->ops_total++;
    for(int i=0;i<NOPS;i++) if(!strcmp(OPS[i].name,name)){ SH->op_count[i]++; break; }
    if(c->verbose) fprintf(stderr,"  %s(%s)\n",name,(char*)SH->detail);
}
void op_end(Ctx *c){ SH->refuse_ok=ANYREF; SH->refuse_must=0; }

/* ---------------- element helpers ---------------- */
size_t esize(bml_matrix_precision_t p){ switch(p){case single_real:return 4;case double_real:return 8;case single_complex:return 8;default:return 16;} }
int is_cplx(bml_matrix_precision_t p){ return p==single_complex||p==double_complex; }
double epsof(bml_matrix_precision_t p){ return (p==single_real||p==single_complex)?6.0e-8:1.2e-16; }
cld eget(const void *b,size_t i,bml_matrix_precision_t p){ switch(p){case single_real:return ((const float*)b)[i];case double_real:return ((const double*)b)[i];
    case single_complex:return ((const float complex*)b)[i];default:return ((const double complex*)b)[i];} }
void eset(void *b,size_t i,bml_matrix_precision_t p,cld v){ switch(p){case single_real:((float*)b)[i]=(float)creall(v);break;case double_real:((double*)b)[i]=(double)creall(v);break;
    case single_complex:((float complex*)b)[i]=(float complex)v;break;default:((double complex*)b)[i]=(double complex)v;} }
cld roundp(cld v,bml_matrix_precision_t p){ volatile double a=(double)creall(v),b=(double)cimagl(v); volatile float fa=(float)creall(v),fb=(float)cimagl(v);
    switch(p){ case single_real: return fa; case double_real: return a; case single_complex: return fa+fb*(cld)I; default: return a+b*(cld)I; } }
const char *tname(bml_matrix_type_t t){ static const char *n[]={"none","dense","ellpack","ellblock","csr","distributed2d"}; return (unsigned)t<6?n[t]:"?"; }
const char *pname(bml_matrix_precision_t t){ static const char *n[]={"none","single_real","double_real","single_complex","double_complex"}; return (unsigned)t<5?n[t]:"?"; }

/* ---------------- observation of a live matrix from its stored structure ---------------- */
static uint64_t fnv(uint64_t h,const void *p,size_t n){ const unsigned char *q=p; for(size_t i=0;i<n;i++){h^=q[i];h*=1099511628211ull;} return h; }
#define IX(i,j,N,M) ((size_t)(i)*(size_t)(M)+(size_t)(j))

uint64_t observe_local(Ctx *c,Slot *s,cld *out,int *stored){
    int N=s->N; uint64_t h=14695981039346656037ull;
    memset(out,0,sizeof(cld)*N*N); if(stored) memset(stored,0,sizeof(int)*N);
    static int seen[NMAX*NMAX]; 
    if(bml_get_type(s->A)!=s->t) fail(c,"meta","type is %s, expected %s",tname(bml_get_type(s->A)),tname(s->t));
    if(bml_get_precision(s->A)!=s->p) fail(c,"meta","precision is %s, expected %s",pname(bml_get_precision(s->A)),pname(s->p));
    if(bml_get_N(s->A)!=N) fail(c,"meta","N is %d, expected %d",bml_get_N(s->A),N);
    size_t es=esize(s->p);
    switch(s->t){
    case dense:{ bml_matrix_dense_t *A=s->A; 
        for(int i=0;i<N;i++) for(int j=0;j<N;j++) out[i*N+j]=eget(A->matrix,(size_t)i*N+j,s->p);
        if(stored) for(int i=0;i<N;i++) stored[i]=N;
        h=fnv(h,A->matrix,es*N*N); break; }
    case ellpack:{ bml_matrix_ellpack_t *A=s->A; int M=A->M;
        for(int i=0;i<N;i++){ int nz=A->nnz[i];
            if(nz<0||nz>M) fail(c,"struct","slot %d row %d: stored count %d outside [0,%d]",s->id,i,nz,M);
            memset(seen,0,sizeof(int)*N);
            for(int k=0;k<nz;k++){ int j=A->index[IX(i,k,N,M)];
                if(j<0||j>=N) fail(c,"struct","slot %d row %d entry %d: column %d out of range",s->id,i,k,j);
                if(seen[j]) fail(c,"struct","slot %d row %d: column %d stored twice",s->id,i,j);
                seen[j]=1; out[i*N+j]=eget(A->value,IX(i,k,N,M),s->p);
                h=fnv(h,&j,4); h=fnv(h,(char*)A->value+es*IX(i,k,N,M),es); }
            h=fnv(h,&nz,4); if(stored) stored[i]=nz; }
        break; }
    case csr:{ bml_matrix_csr_t *A=s->A;
        for(int i=0;i<N;i++){ csr_sparse_row_t *row=A->data_[i]; int nz=row->NNZ_;
            if(nz<0||nz>row->alloc_size_) fail(c,"struct","slot %d row %d: stored count %d outside [0,%d]",s->id,i,nz,row->alloc_size_);
            memset(seen,0,sizeof(int)*N);
            for(int k=0;k<nz;k++){ int j=row->cols_[k];
                if(j<0||j>=N) fail(c,"struct","slot %d row %d entry %d: column %d out of range",s->id,i,k,j);
                if(seen[j]) fail(c,"struct","slot %d row %d: column %d stored twice",s->id,i,j);
                seen[j]=1; out[i*N+j]=eget(row->vals_,k,s->p);
                h=fnv(h,&j,4); h=fnv(h,(char*)row->vals_+es*k,es); }
            h=fnv(h,&nz,4); if(stored) stored[i]=nz; }
        break; }
    case ellblock:{ bml_matrix_ellblock_t *A=s->A; int NB=A->NB,MB=A->MB; int off[NMAX+1]; off[0]=0;
        if(NB<1||NB>N) fail(c,"struct","slot %d: NB=%d",s->id,NB);
        for(int b=0;b<NB;b++){ if(A->bsize[b]<=0) fail(c,"struct","slot %d: block size %d",s->id,A->bsize[b]); off[b+1]=off[b]+A->bsize[b]; if(off[b+1]>N) break; }
        if(off[NB]!=N) fail(c,"struct","slot %d: block sizes add up to %d, not %d",s->id,off[NB],N);
        for(int ib=0;ib<NB;ib++){ int nz=A->nnzb[ib];
            if(nz<0||nz>MB) fail(c,"struct","slot %d block row %d: stored count %d outside [0,%d]",s->id,ib,nz,MB);
            memset(seen,0,sizeof(int)*NB);
            for(int k=0;k<nz;k++){ int jb=A->indexb[IX(ib,k,NB,MB)];
                if(jb<0||jb>=NB) fail(c,"struct","slot %d block row %d entry %d: block column %d out of range",s->id,ib,k,jb);
                if(seen[jb]) fail(c,"struct","slot %d block row %d: block column %d stored twice",s->id,ib,jb);
                seen[jb]=1; void *v=A->ptr_value[IX(ib,k,NB,MB)];
                if(!v) fail(c,"struct","slot %d block row %d entry %d: no storage",s->id,ib,k);
                for(int ii=0;ii<A->bsize[ib];ii++) for(int jj=0;jj<A->bsize[jb];jj++)
                    out[(off[ib]+ii)*N+off[jb]+jj]=eget(v,(size_t)ii*A->bsize[jb]+jj,s->p);
                h=fnv(h,&jb,4); h=fnv(h,v,es*A->bsize[ib]*A->bsize[jb]); }
            h=fnv(h,&nz,4); if(stored) for(int i=off[ib];i<off[ib+1];i++) stored[i]=nz; }
        /* distinct live blocks: no two entries of this matrix share storage */
        break; }
    default: break; }
    return h;
}
static uint64_t observe_raw(Ctx *c,Slot *s,cld *out,int *stored){ return c->dist?dist_observe(c,s,out,stored):observe_local(c,s,out,stored); }
void observe(Ctx *c,Slot *s,cld *out,int *stored){ s->hash=observe_raw(c,s,out,stored); SH->checks_total++; }
static cld OBS[NMAX*NMAX];
int slot_maxnnz(Ctx *c,Slot *s){ static int st[NMAX]; static cld o[NMAX*NMAX]; observe_raw(c,s,o,st); int m=0; for(int i=0;i<s->N;i++) if(st[i]>m) m=st[i]; return m; }
void resync(Ctx *c,Slot *s){ observe(c,s,OBS,NULL); memcpy(s->v,OBS,sizeof(cld)*s->N*s->N); }

/* EXPv/TOLs/DROPs are filled by the operation; |obs-exp|<=tol, or obs==0 and |exp|<=drop+tol; optionally the same for an alternative value */
static int okval(cld o,cld e,ld tol,ld drop){ if(cab(o-e)<=tol) return 1; return o==0&&drop>0&&cab(e)<=drop+tol; }
static void verify_(Ctx *c,Slot *s,int alt){
    observe(c,s,OBS,NULL); int N=s->N;
    for(int i=0;i<N*N;i++){
        if(okval(OBS[i],EXPv[i],TOLs[i],DROPs[i])) continue;
        if(alt&&ALTon[i]&&okval(OBS[i],ALTv[i],TOLs[i],DROPs[i])) continue;
        fail(c,"value","slot %d element (%d,%d) is %.17Lg%+.17Lgi, expected %.17Lg%+.17Lgi (tolerance %.3Lg, droppable below %.3Lg)",s->id,i/N,i%N,
             creall(OBS[i]),cimagl(OBS[i]),creall(EXPv[i]),cimagl(EXPv[i]),TOLs[i],DROPs[i]);
    }
    SH->elems_total+=N*N;
    memcpy(s->v,OBS,sizeof(cld)*N*N);
}
void verify(Ctx *c,Slot *s){ verify_(c,s,0); }
void verify_alt(Ctx *c,Slot *s){ verify_(c,s,1); }
void verify_const(Ctx *c,int modified){
    for(int k=0;k<MAXSLOT;k++) if(c->s[k].live && !(modified>>k&1)){
        uint64_t old=c->s[k].hash; uint64_t h=observe_raw(c,&c->s[k],OBS,NULL);
        if(h!=old){
            int N=c->s[k].N, bad=-1; for(int i=0;i<N*N;i++) if(OBS[i]!=c->s[k].v[i]&&!(isnan((double)creall(OBS[i])))) {bad=i;break;}
            if(bad>=0) fail(c,"const","operand/bystander slot %d changed: element (%d,%d) was %.12Lg%+.12Lgi, now %.12Lg%+.12Lgi",k,bad/N,bad%N,
                creall(c->s[k].v[bad]),cimagl(c->s[k].v[bad]),creall(OBS[bad]),cimagl(OBS[bad]));
            c->s[k].hash=h; /* same elements, different layout: not an observable change */
        }
        SH->checks_total++;
    }
}
void verify_scalar(Ctx *c,const char *what,ld got,ld exp,ld tol){
    SH->checks_total++;
    if(!(fabsl(got-exp)<=tol)) fail(c,"value","%s is %.17Lg, expected %.17Lg (tolerance %.3Lg)",what,got,exp,tol);
}
/* library readers must agree with the stored structure */
void readback(Ctx *c,Slot *s){
    int N=s->N; 
    void *d; LIB(d=bml_export_to_dense(s->A,dense_row_major)); if(c->dist&&c->rank){ if(d) fail(c,"read","export returned an array away from the root"); }
    else for(int i=0;i<N*N;i++){ cld x=eget(d,i,s->p); if(x!=s->v[i]) fail(c,"read","export element (%d,%d) is %.12Lg%+.12Lgi, stored %.12Lg%+.12Lgi",i/N,i%N,creall(x),cimagl(x),creall(s->v[i]),cimagl(s->v[i])); }
    if(d) LIB(bml_free_memory(d));
    for(int q=0;q<N;q++){ void *row; LIB(row=bml_get_row(s->A,q));
        for(int j=0;j<N;j++){ cld x=eget(row,j,s->p); if(x!=s->v[q*N+j]) fail(c,"read","row read (%d,%d) is %.12Lg, stored %.12Lg",q,j,creall(x),creall(s->v[q*N+j])); }
        LIB(bml_free_memory(row)); }
    if(!c->dist) for(int q=0;q<3*N;q++){ int i=rint_(&c->r,0,N-1),j=rint_(&c->r,0,N-1); void *e; LIB(e=bml_get_element(s->A,i,j));
        cld x=eget(e,0,s->p); if(x!=s->v[i*N+j]) fail(c,"read","element read (%d,%d) is %.12Lg, stored %.12Lg",i,j,creall(x),creall(s->v[i*N+j])); }
    SH->checks_total+=N*N*2+3*N;
}

/* ---------------- slots ---------------- */
int slot_reserved=-1;
int new_slot_idx(Ctx *c){ for(int k=0;k<MAXSLOT;k++) if(!c->s[k].live&&k!=slot_reserved) return k; return -1; }
void adopt(Ctx *c,int k,bml_matrix_t *A,bml_matrix_type_t t,bml_matrix_precision_t p,int N,int M){
    Slot *s=&c->s[k]; if(!A) fail(c,"value","null matrix returned");
    s->A=A; s->t=t; s->p=p; s->N=N; s->M=M; s->live=1; s->id=k; s->odd=c->only!=0; static cld VALS[2][MAXSLOT][(size_t)NMAX*NMAX]; s->v=VALS[c->local][k];
    memset(s->v,0,sizeof(cld)*N*N);
}
void drop_slot(Ctx *c,int k){ op_begin(c,"deallocate","s%d",k); LIB(bml_deallocate(&c->s[k].A)); c->s[k].live=0;
    if(c->s[k].A!=NULL) fail(c,"mem","handle not cleared by release");
    if(rint_(&c->r,0,3)==0){ LIB(bml_deallocate(&c->s[k].A)); if(c->s[k].A!=NULL) fail(c,"mem","handle not left empty by a second release"); } op_end(c); }

/* ---------------- data generation ---------------- */
static ld gen_real(Ctx *c){
    switch(c->vmode){
    case 0: { int k=rint_(&c->r,-4,4); if(!k) k=1; return k; }
    case 1: { int k=rint_(&c->r,-40,40); if(!k) k=3; return k/8.0L; }
    case 2: return 2*runi(&c->r)-1;
    case 3: { ld m=powl(10.0L,rint_(&c->r,-5,3)); return (2*runi(&c->r)-1)*m; }
    case 4: { ld m=powl(10.0L,rint_(&c->r,-9,6)); return (CH(c,2)?1:-1)*(0.5+runi(&c->r))*m; }
    case 5: { int e=rint_(&c->r,-6,6); return (CH(c,2)?1:-1)*ldexpl(1.0L,e); }
    case 6: { int f=c->p==single_real||c->p==single_complex; ld m=powl(10.0L,rint_(&c->r,f?-15:-25,f?-5:-7)); return (CH(c,2)?1:-1)*(0.5+runi(&c->r))*m; } /* nothing but small numbers */
    default: return runi(&c->r);
    }
}
cld gen_value(Ctx *c){ ld a=gen_real(c); if(!is_cplx(c->p)) return roundp(a,c->p);
    int k=rint_(&c->r,0,4); ld b=gen_real(c); if(k==0) return roundp(a,c->p); if(k==1) return roundp(b*(cld)I,c->p); return roundp(a+b*(cld)I,c->p); }
void limit_rows(Ctx *c,int N,cld *v,int maxrow){
    for(int i=0;i<N;i++){ for(;;){ int n=0; for(int j=0;j<N;j++) n+=v[i*N+j]!=0; if(n<=maxrow) break; int j=rint_(&c->r,0,N-1); v[i*N+j]=0; } } }
void gen_dense(Ctx *c,int N,cld *v,int maxrow){
    memset(v,0,sizeof(cld)*N*N);
    int kind=rint_(&c->r,0,11); double dens=0.05+0.9*runi(&c->r)*runi(&c->r);
    for(int i=0;i<N;i++) for(int j=0;j<N;j++){ int on=0;
        switch(kind){
        case 0: on=0; break;
        case 1: on=(i==j); break;
        case 2: on=abs(i-j)<=1; break;
        case 3: on=(i==j)||(i==0)||(j==0); break;
        case 4: on=1; break;
        case 5: on=(j>i); break;
        case 6: on=((i*7+3)%N==j)||(runi(&c->r)<0.1); break;
        case 7: on=(i!=j)&&runi(&c->r)<dens; break;
        case 8: on=(i%3!=1)&&runi(&c->r)<dens; break;
        default: on=runi(&c->r)<dens; break; }
        if(on) v[i*N+j]=gen_value(c); }
    if(CH(c,8)) for(int i=0;i<N;i++) v[i*N+i]=roundp(-cabsl(v[i*N+i])-1,c->p);  /* negative diagonal */
    if(maxrow<N) limit_rows(c,N,v,maxrow);
}
double gen_thr(Ctx *c,Slot *s){
    int k=rint_(&c->r,0,9); double t=0;
    if(k<4) return 0.0;
    if(k<8 && s){ int N=s->N; for(int q=0;q<40;q++){ int i=rint_(&c->r,0,N*N-1); if(s->v[i]!=0){ t=(double)cab(s->v[i]); if(k==5) t*=0.75; if(k==6) t*=1.0001; break; } } }
    else if(k==8) t=1e-3; else t=2.0;
    if(c->p==single_real||c->p==single_complex) t=(float)t;
    return t;
}

/* ---------------- allocation ledger (linker --wrap) ---------------- */
#define TCAP (1<<16)
typedef struct { void *p; size_t n; char op[24]; } Ent;
static Ent *T; static long Tn; static pthread_mutex_t TM=PTHREAD_MUTEX_INITIALIZER;
#ifndef NOWRAP
void *__real_malloc(size_t); void *__real_calloc(size_t,size_t); void *__real_realloc(void*,size_t); void __real_free(void*); int __real_posix_memalign(void**,size_t,size_t);
#endif
static size_t slotof(void *p){ uint64_t h=(uint64_t)p; h=(h>>4)*0x9E3779B97F4A7C15ull; return (h>>40)&(TCAP-1); }
void track_reset(void){ if(!T) T=mmap(NULL,sizeof(Ent)*TCAP,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); else memset(T,0,sizeof(Ent)*TCAP); Tn=0; }
#define TOMB ((void*)1)
static void tadd(void *p,size_t n){ if(!T||!p||!track_on) return; pthread_mutex_lock(&TM); size_t i=slotof(p); int k=0; while(T[i].p&&T[i].p!=TOMB&&k<TCAP){i=(i+1)&(TCAP-1);k++;} if(k<TCAP){T[i].p=p;T[i].n=n; strncpy(T[i].op,(char*)SH->op,23); Tn++;} pthread_mutex_unlock(&TM); }
static void tdel(void *p){ if(!T||!p||!track_on) return; pthread_mutex_lock(&TM); size_t i=slotof(p); int k=0; while(T[i].p&&k<TCAP){ if(T[i].p==p){T[i].p=TOMB;Tn--;break;} i=(i+1)&(TCAP-1);k++; } pthread_mutex_unlock(&TM); }
int track_live(char *buf,int n){ int cnt=0,o=0; if(!T) return 0; buf[0]=0; for(int i=0;i<TCAP;i++) if(T[i].p&&T[i].p!=TOMB){ cnt++; if(o<n-60) o+=snprintf(buf+o,n-o,"%zu bytes from %s; ",T[i].n,T[i].op); } return cnt; }
void track_mark_safe(void *p){ tdel(p); }
#ifndef NOWRAP
/* the place a request comes from: the helper and the function that called it */
static __attribute__((noinline)) int inject(void){ if(!SH||!SH->in_lib||SH->alloc_fail_at<0) return 0; long k=__sync_add_and_fetch(&SH->alloc_seen,1); if(SH->alloc_fail_at==0&&k<=16384){ uint64_t h=(uint64_t)__builtin_return_address(1)*0x9E3779B97F4A7C15ull+(uint64_t)__builtin_return_address(2); h*=0xC2B2AE3D27D4EB4Full; SH->alloc_site[k-1]=(uint32_t)(h>>32); } if(SH->alloc_fail_at>0&&k==SH->alloc_fail_at){ SH->alloc_failed=1; return 1; } return 0; }
void *__wrap_malloc(size_t n){ if(inject()) return NULL; void *p=__real_malloc(n); if(SH&&SH->in_lib) tadd(p,n); return p; }
void *__wrap_calloc(size_t a,size_t b){ if(inject()) return NULL; void *p=__real_calloc(a,b); if(SH&&SH->in_lib) tadd(p,a*b); return p; }
void *__wrap_realloc(void *q,size_t n){ if(inject()) return NULL; int inlib=SH&&SH->in_lib; if(inlib) tdel(q); void *p=__real_realloc(q,n); if(inlib) tadd(p,n); return p; }
int __wrap_posix_memalign(void **q,size_t al,size_t n){ if(inject()) return ENOMEM; int r=__real_posix_memalign(q,al,n); if(!r&&SH&&SH->in_lib) tadd(*q,n); return r; }
void __wrap_free(void *p){ tdel(p); __real_free(p); }
#endif
#ifndef _OPENMP
void omp_set_num_threads(int n){ (void)n; }
#endif
