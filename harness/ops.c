/* Operations of the public interface with their reference semantics.  Every operation: choose live operands,
 * fill EXPv/TOLs/DROPs from the model (the last observed elements), call the library, compare what is observed. */
#ifdef FORT
#include "fort/fmap.h"
#endif
#include "mon.h"
#include <sys/stat.h>
#include "bml_parallel.h"
#define MASK(k) (1u<<(k))
#define EACH(e,N) for(int e=0;e<(N)*(N);e++)
static cld T1[NMAX*NMAX], T2[NMAX*NMAX];
static ld  R1[NMAX*NMAX];
cld ALTv[NMAX*NMAX]; unsigned char ALTon[NMAX*NMAX];
static unsigned char PA[NMAX*NMAX], PB[NMAX*NMAX], PC[NMAX*NMAX];
static void *raw(Ctx *c,size_t n){ void *p; track_on=0; p=malloc(n*16+64); track_on=1; return p; }

/* ---- stored patterns and capacity, in storage units (rows, or block rows) ---- */
static int units(Ctx *c,Slot *s){ if(c->dist) return s->N; return s->t==ellblock?((bml_matrix_ellblock_t*)s->A)->NB:s->N; }
static int cap(Ctx *c,Slot *s){ if(c->dist) return 1<<30; switch(s->t){ case ellpack: return ((bml_matrix_ellpack_t*)s->A)->M; case ellblock: return ((bml_matrix_ellblock_t*)s->A)->MB; default: return 1<<30; } }
static void upat(Ctx *c,Slot *s,unsigned char *P){ int U=units(c,s); memset(P,0,U*U); if(c->dist) return;
    switch(s->t){
    case dense: memset(P,1,U*U); break;
    case ellpack:{ bml_matrix_ellpack_t*A=s->A; for(int i=0;i<U;i++) for(int k=0;k<A->nnz[i];k++) P[i*U+A->index[(size_t)i*A->M+k]]=1; break; }
    case csr:{ bml_matrix_csr_t*A=s->A; for(int i=0;i<U;i++) for(int k=0;k<A->data_[i]->NNZ_;k++) P[i*U+A->data_[i]->cols_[k]]=1; break; }
    case ellblock:{ bml_matrix_ellblock_t*A=s->A; for(int i=0;i<U;i++) for(int k=0;k<A->nnzb[i];k++) P[i*U+A->indexb[(size_t)i*A->MB+k]]=1; break; }
    default: break; } }
static int maxrow(const unsigned char *P,int U){ int m=0; for(int i=0;i<U;i++){ int n=0; for(int j=0;j<U;j++) n+=P[i*U+j]; if(n>m) m=n; } return m; }
static int unit_of(Ctx *c,Slot *s,int i){ if(c->dist||s->t!=ellblock) return i; bml_matrix_ellblock_t*A=s->A; int b=0; while(i>=A->bsize[b]){i-=A->bsize[b];b++;} return b; }
static void allow(Ctx *c,int need,int capacity){ if(need>capacity){ SH->refuse_ok=1; SH->nover++; } }
/* pattern of model values T in the units of a matrix of slot s's kind */
static void vpat(Ctx *c,Slot *s,const cld *T,ld thr,unsigned char *P){ int U=units(c,s),N=s->N; memset(P,0,U*U); EACH(e,N) if(cab(T[e])>thr) P[unit_of(c,s,e/N)*U+unit_of(c,s,e%N)]=1; }

static ld magn(ld x){ return fabsl(x); }
#define EPS(c) ((ld)(c)->eps)
static void ex(int e,cld v,ld tol,ld drop){ EXPv[e]=v; TOLs[e]=tol; DROPs[e]=drop; }

/* ---- operand choice ---- */
static int nlive(Ctx *c){ int n=0; for(int k=0;k<MAXSLOT;k++) n+=c->s[k].live; return n; }
static int pick(Ctx *c,unsigned excl){ int o[MAXSLOT],n=0; for(int k=0;k<MAXSLOT;k++) if(c->s[k].live&&!(excl>>k&1)&&(!c->only||c->only==k+1)) o[n++]=k; if(!n) return -1; return o[rint_(&c->r,0,n-1)]; }
static int freeslot(Ctx *c,unsigned keep){ int k=new_slot_idx(c); if(k>=0&&nlive(c)<6) return k; int on=c->only; c->only=0; int d=pick(c,keep|(on?MASK(on-1):0)); c->only=on; drop_slot(c,d); return d; }
static int rand_thr_free(Ctx *c){ return CH(c,3); }

/* ================= construction ================= */
bml_distribution_mode_t DM=sequential;
static int maxrow_for(Ctx *c){ if(c->dist&&c->mmode) return c->M/c->dist; if(c->mmode==0) return c->N; if(c->mmode==1) return c->M>3?rint_(&c->r,1,(c->M+1)/2):1; return CH(c,5)?c->N:rint_(&c->r,(c->M+1)/2,c->M); }
static int op_import_into(Ctx *c,int k,const cld *v,ld thr){
    int N=c->N; bml_dense_order_t o=CH(c,2)?dense_row_major:dense_column_major; void *b=raw(c,N*N);
    EACH(e,N){ int i=e/N,j=e%N; eset(b,o==dense_row_major?i*N+j:i+j*N,c->p,v[e]); }
    op_begin(c,"import","s%d %s %s %s N=%d M=%d thr=%.17Lg",k,tname(c->t),pname(c->p),o==dense_row_major?"row":"col",N,c->M,thr);
    /* capacity */
    if(c->t==ellpack&&!c->dist){ int m=0; for(int i=0;i<N;i++){ int n=0; for(int j=0;j<N;j++) n+=cab(v[i*N+j])>thr*(1-1e-6L); if(n>m)m=n; } allow(c,m,c->M); }
    if(c->t==ellblock&&c->mmode){ SH->refuse_ok=1; }
    int noarr=c->dist&&CH(c,2)&&c->rank>0; /* only the root's array is read */
    bml_matrix_t *A; LIB(A=bml_import_from_dense(c->t,c->p,o,N,c->M,noarr?NULL:b,(double)thr,DM)); 
    adopt(c,k,A,c->t,c->p,N,c->M);
    EACH(e,N){ ld a=cab(v[e]); int strict=!is_cplx(c->p); ld lo=strict?thr:thr*(1-1e-6L),hi=strict?thr:thr*(1+1e-6L);
        if(a>hi) ex(e,v[e],0,0);
        else if(a>lo||c->t==dense||c->t==ellblock) ex(e,v[e],0,hi==0?0:hi*(1+1e-6L)+1e-300L);
        else ex(e,0,0,0); }
    verify(c,&c->s[k]); verify_const(c,MASK(k));
    for(int e=0;e<N*N;e++){ int i=e/N,j=e%N; if(eget(b,o==dense_row_major?i*N+j:i+j*N,c->p)!=v[e]) fail(c,"const","import changed its input array at (%d,%d)",i,j); }
    op_end(c); track_on=0; free(b); track_on=1; return 1;
}
static int op_import(Ctx *c){ int k=freeslot(c,0); gen_dense(c,c->N,T1,maxrow_for(c)); ld thr=0; if(!CH(c,3)){ thr=0; } else { Slot tmp=c->s[k]; tmp.N=c->N; tmp.v=T1; thr=gen_thr(c,&tmp); } return op_import_into(c,k,T1,thr); }
static int op_export(Ctx *c){ int k=pick(c,0); if(k<0) return 0; Slot*s=&c->s[k]; int N=s->N; bml_dense_order_t o=CH(c,2)?dense_row_major:dense_column_major;
    op_begin(c,"export","s%d %s",k,o==dense_row_major?"row":"col"); void*d; LIB(d=bml_export_to_dense(s->A,o)); if(c->dist&&c->rank){ if(d) fail(c,"value","export returned an array away from the root"); }
    else EACH(e,N){ int i=e/N,j=e%N; cld x=eget(d,o==dense_row_major?i*N+j:i+j*N,s->p); if(x!=s->v[e]) fail(c,"value","exported element (%d,%d) is %.12Lg%+.12Lgi, held %.12Lg%+.12Lgi",i,j,creall(x),cimagl(x),creall(s->v[e]),cimagl(s->v[e])); }
    if(d) LIB(bml_free_memory(d)); verify_const(c,0); op_end(c); return 1; }
static void check_meta(Ctx *c,Slot *s){
    if(!c->dist&&bml_get_NB(s->A)!=(s->t==ellblock?((bml_matrix_ellblock_t*)s->A)->NB:1)) fail(c,"meta","%d block rows reported",bml_get_NB(s->A));
    if(!c->dist&&s->t==dense&&bml_get_data_ptr(s->A)!=((bml_matrix_dense_t*)s->A)->matrix) fail(c,"meta","the data pointer of a dense matrix is not its array");
    { int x=rint_(&c->r,1,3)==1?rint_(&c->r,1,1<<20):s->N; int q; LIB(q=bml_sqrtint(x)); if((long)q*q<x||(long)(q-1)*(q-1)>=x) fail(c,"value","integer square root of %d is %d",x,q); }
    if(c->dist?bml_get_M(s->A)!=s->M:s->t==csr?bml_get_M(s->A)<s->M:bml_get_M(s->A)!=(s->t==dense?s->N:s->M)) fail(c,"meta","row capacity reported %d, created with %d",bml_get_M(s->A),s->M);
    if(bml_get_distribution_mode(s->A)!=DM) fail(c,"meta","distribution mode %d, created with %d",bml_get_distribution_mode(s->A),DM);
    if(bml_get_deep_type(s->A)!=s->t) fail(c,"meta","deep type differs");
    if(!bml_allocated(s->A)) fail(c,"meta","live matrix reported as not allocated");
}
static int op_ctor(Ctx *c,int which){ int k=freeslot(c,0),N=c->N; static const char *nm[]={"zero","identity","banded","random","noinit"};
    int M=c->M; 
    if(c->dist&&which==2) return 0;
    if(which>=2&&c->t!=ellblock&&c->mmode==0&&!c->dist&&CH(c,2)){ M=rint_(&c->r,1,N); }
    op_begin(c,nm[which],"s%d %s %s N=%d M=%d",k,tname(c->t),pname(c->p),N,M); bml_matrix_t*A=NULL;
    if(c->t==ellblock&&c->mmode) SH->refuse_ok=1;
    switch(which){
    case 0: LIB(A=bml_zero_matrix(c->t,c->p,N,M,DM)); break;
    case 1: LIB(A=bml_identity_matrix(c->t,c->p,N,M,DM)); break;
    case 2: LIB(A=bml_banded_matrix(c->t,c->p,N,M,DM)); break;
    case 3: LIB(A=bml_random_matrix(c->t,c->p,N,M,DM)); break;
    case 4: if(!c->dist&&CH(c,2)){ bml_matrix_dimension_t d={N,N,M}; LIB(A=bml_noinit_rectangular_matrix(c->t,c->p,d,DM)); } else LIB(A=bml_noinit_matrix(c->t,c->p,N,M,DM)); break; }
    adopt(c,k,A,c->t,c->p,N,M); Slot*s=&c->s[k];
    if(which==4){ check_meta(c,s); LIB(bml_clear(A)); which=0; }
    if(which<=1){ EACH(e,N) ex(e,(which==1&&e/N==e%N)?1:0,0,0); verify(c,s); }
    else { static int st[NMAX]; observe(c,s,s->v,st);
        EACH(e,N){ cld x=s->v[e]; int i=e/N,j=e%N; if(!isfinite((double)creall(x))||!isfinite((double)cimagl(x))) fail(c,"value","entry (%d,%d) is not finite",i,j);
            if(which==2){ int lo=i-M/2, hi=i-M/2+M-1; int in=(j>=lo&&j<=hi); if(!in&&x!=0) fail(c,"value","entry (%d,%d)=%.6Lg outside the band",i,j,creall(x)); }
            if(creall(x)<0||creall(x)>1.0000001L||fabsl(cimagl(x))>1.0000001L) fail(c,"value","random entry (%d,%d)=%.6Lg outside [0,1]",i,j,creall(x)); }
        if(which==2){ int nz=0,pos=0; EACH(e,N){ int i=e/N,j=e%N; if(j>=i-M/2&&j<=i-M/2+M-1){pos++; nz+=s->v[e]!=0;} } if(pos>20&&nz<pos*3/4) fail(c,"value","band has %d non-zeros of %d positions",nz,pos); }
        if(which==3&&c->t==dense&&N>=6){ int nz=0; EACH(e,N) nz+=s->v[e]!=0; if(nz<N*N/2) fail(c,"value","random dense matrix has only %d of %d entries",nz,N*N); }
        if(which==3&&c->t!=dense){ for(int i=0;i<N;i++){ int nz=0; for(int j=0;j<N;j++) nz+=s->v[i*N+j]!=0; if(!nz&&M>0) { int z=st[i]; if(!z) fail(c,"value","random matrix row %d is empty",i); } } }
    }
    check_meta(c,s); s->M=c->M==M?M:M; verify_const(c,MASK(k)); op_end(c);
    if(M!=c->M) drop_slot(c,k);
    return 1; }
static int op_zero(Ctx*c){return op_ctor(c,0);} static int op_identity(Ctx*c){return op_ctor(c,1);} static int op_banded(Ctx*c){return op_ctor(c,2);}
static int op_random(Ctx*c){return op_ctor(c,3);} static int op_noinit(Ctx*c){return op_ctor(c,4);}
bml_matrix_t *bml_block_matrix(bml_matrix_type_t,bml_matrix_precision_t,int,int,int,int*,bml_distribution_mode_t); /* in no header; the Fortran interface calls it */
/* a partition of its own, or the one in use; returns the number of blocks */
static int op_block_matrix(Ctx*c){ if(c->dist||c->t!=ellblock||c->only) return 0; int N=c->N,k=freeslot(c,0),nb=0,s0=0,own=!CH(c,3),bs[NMAX]; 
    if(own){ int bm=CH(c,6)?N:6; while(s0<N){ int q=rint_(&c->r,1,bm); if(q>N-s0) q=N-s0; bs[nb++]=q; s0+=q; } } else { int*g=bml_get_block_sizes(N,c->M); nb=bml_get_nb(); memcpy(bs,g,nb*sizeof(int)); }
    int mb=nb,M=c->M; if(c->mmode&&CH(c,2)) mb=rint_(&c->r,1,nb); if(own&&CH(c,3)) M=rint_(&c->r,1,N);
    char pb[200]; int pn=0; pb[0]=0; for(int i=0;i<nb&&pn<180;i++) pn+=snprintf(pb+pn,sizeof pb-pn,"%s%d",i?",":"",bs[i]);
    op_begin(c,"block_matrix","s%d %s %s M=%d blocks %d of [%s]",k,tname(c->t),pname(c->p),M,mb,pb); bml_matrix_t*A; int keep[NMAX]; memcpy(keep,bs,sizeof keep);
    LIB(A=bml_block_matrix(c->t,c->p,nb,mb,M,bs,DM)); if(memcmp(keep,bs,nb*sizeof(int))) fail(c,"const","the block sizes passed in changed"); for(int i=0;i<nb;i++) bs[i]=-1; /* the matrix must not refer to the caller's array */
    adopt(c,k,A,c->t,c->p,N,M); Slot*s=&c->s[k]; EACH(e,N) ex(e,0,0,0); verify(c,s); check_meta(c,s); verify_const(c,MASK(k));
    bml_matrix_ellblock_t*Z=A; if(bml_get_NB(A)!=nb||Z->MB!=mb) fail(c,"meta","%d block rows of capacity %d, asked for %d of %d",bml_get_NB(A),Z->MB,nb,mb); for(int i=0;i<nb;i++) if(Z->bsize[i]!=keep[i]) fail(c,"meta","block %d has size %d, asked for %d",i,Z->bsize[i],keep[i]);
    op_end(c); if(!own) return 1;
    /* a partition of its own: operations on this matrix alone, then it and all that was made from it go away */
    c->only=k+1; extern int confined(Ctx*,const char*); 
    int n=rint_(&c->r,2,9); const char*st=rint_(&c->r,0,3)==0?"set_diagonal":"set_element"; confined(c,st); for(int q=0;q<n&&c->s[k].live;q++) confined(c,CH(c,3)?"set_element":NULL);
    c->only=0; for(int q=0;q<MAXSLOT;q++) if(c->s[q].live&&(c->s[q].odd||q==k)) drop_slot(c,q);
    return 1; }
static int op_clear(Ctx*c){ int k=pick(c,0); if(k<0) return 0; Slot*s=&c->s[k]; int N=s->N; op_begin(c,"clear","s%d",k); LIB(bml_clear(s->A)); EACH(e,N) ex(e,0,0,0); verify(c,s); check_meta(c,s); verify_const(c,MASK(k)); op_end(c); return 1; }
static int op_drop(Ctx*c){ int k=pick(c,0); if(k<0||nlive(c)<2) return 0; drop_slot(c,k); verify_const(c,0); return 1; }
static int op_introspect(Ctx*c){ int k=pick(c,0); if(k<0) return 0; Slot*s=&c->s[k]; int N=s->N; double thr=gen_thr(c,s);
    op_begin(c,"introspect","s%d thr=%.17g",k,thr); static int st[NMAX]; observe(c,s,T1,st); if(s->M==c->M) check_meta(c,s);
    if(!c->dist){
    int mxn=0,mxs=0; for(int i=0;i<N;i++){ int nz=0; for(int j=0;j<N;j++) nz+=s->v[i*N+j]!=0; int bw,hi=s->t==dense?nz:(s->t==ellblock?N:st[i]);
        LIB(bw=bml_get_row_bandwidth(s->A,i)); if(bw<nz||bw>hi) fail(c,"value","row %d bandwidth reported %d, content %d (stored %d)",i,bw,nz,hi); if(nz>mxn)mxn=nz; if(hi>mxs)mxs=hi; }
    int bw; LIB(bw=bml_get_bandwidth(s->A)); if(bw<mxn||bw>mxs) fail(c,"value","bandwidth reported %d, content %d..%d",bw,mxn,mxs);
    }
    int lo=0,hi=0; EACH(e,N){ ld a=cab(s->v[e]); ld m=is_cplx(s->p)?1e-6L:0; if(a>thr*(1+m)) lo++; if(a>thr*(1-m)) hi++; }
    double sp; LIB(sp=bml_get_sparsity(s->A,thr)); double e1=1.0-(double)lo/((double)N*N), e2=1.0-(double)hi/((double)N*N);
    if(sp>e1+1e-12||sp<e2-1e-12) fail(c,"value","sparsity reported %.15g, content %.15g",sp,e1);
#ifndef MPISIM
    /* the parallel interface of a single process */
    { int nr,mr; LIB(nr=bml_getNRanks()); LIB(mr=bml_getMyRank()); if(nr!=1||mr!=0) fail(c,"value","rank %d of %d in a single process",mr,nr); double x=runi(&c->r)*9-4,y=x; switch(rint_(&c->r,0,3)){ case 0: LIB(bml_sumRealReduce(&y)); break; case 1: LIB(bml_minRealReduce(&y)); break; case 2: LIB(bml_maxRealReduce(&y)); break; default: LIB(bml_barrierParallel()); }
      if(x!=y) fail(c,"value","a reduction over a single process turned %g into %g",x,y); if((s->t==dense||s->t==ellpack)&&CH(c,2)) LIB(bml_allGatherVParallel(s->A)); }
#endif
    verify_const(c,0); SH->checks_total+=N+2; op_end(c); return 1; }

/* ================= element access ================= */
static int op_set_element(Ctx*c){ if(c->dist) return 0; int k=pick(c,0); if(k<0) return 0; Slot*s=&c->s[k]; int N=s->N,n=rint_(&c->r,1,6); int focus=CH(c,2)?rint_(&c->r,0,N-1):-1;
    for(int q=0;q<n;q++){ int i=focus>=0?focus:rint_(&c->r,0,N-1),j=rint_(&c->r,0,N-1); cld v=CH(c,8)?0:gen_value(c); char b[32]; memset(b,0,32); double complex al[2]; eset(al,0,s->p,v);
        op_begin(c,"set_element","s%d (%d,%d)=%.9Lg%+.9Lgi",k,i,j,creall(v),cimagl(v));
        int U=units(c,s); upat(c,s,PA); int ui=unit_of(c,s,i),uj=unit_of(c,s,j); if(!PA[ui*U+uj]){ int cnt=0; for(int x=0;x<U;x++) cnt+=PA[ui*U+x]; allow(c,cnt+1,cap(c,s)); }
        LIB(bml_set_element(s->A,i,j,al)); EACH(e,N) ex(e,s->v[e],0,0); EXPv[i*N+j]=v; verify(c,s);
        void*g; LIB(g=bml_get_element(s->A,i,j)); cld x=eget(g,0,s->p); if(x!=v) fail(c,"value","element (%d,%d) reads %.12Lg%+.12Lgi after writing %.12Lg%+.12Lgi",i,j,creall(x),cimagl(x),creall(v),cimagl(v));
        verify_const(c,MASK(k)); op_end(c); }
    return 1; }
static int op_set_element_new(Ctx*c){ if(c->dist) return 0; int k=pick(c,0); if(k<0) return 0; Slot*s=&c->s[k]; int N=s->N,n=rint_(&c->r,1,5);
    for(int q=0;q<n;q++){ int i=rint_(&c->r,0,N-1),j=rint_(&c->r,0,N-1); upat(c,s,PA); int U=units(c,s),ui=unit_of(c,s,i),uj=unit_of(c,s,j);
        if(s->t!=ellblock&&s->t!=dense&&PA[ui*U+uj]) continue; if(s->v[i*N+j]!=0) continue;
        cld v=gen_value(c); double complex al[2]; eset(al,0,s->p,v); op_begin(c,"set_element_new","s%d (%d,%d)=%.9Lg%+.9Lgi",k,i,j,creall(v),cimagl(v));
        if(!PA[ui*U+uj]){ int cnt=0; for(int x=0;x<U;x++) cnt+=PA[ui*U+x]; allow(c,cnt+1,cap(c,s)); }
        LIB(bml_set_element_new(s->A,i,j,al)); EACH(e,N) ex(e,s->v[e],0,0); EXPv[i*N+j]=v; verify(c,s); verify_const(c,MASK(k)); op_end(c); }
    return 1; }
static int op_set_row(Ctx*c){ int k=pick(c,0); if(k<0) return 0; Slot*s=&c->s[k]; int N=s->N,i=rint_(&c->r,0,N-1); void*row=raw(c,N); static cld v[NMAX]; double dens=runi(&c->r); int mr=maxrow_for(c),cnt=0;
    for(int j=0;j<N;j++){ v[j]=(runi(&c->r)<dens&&cnt<mr)?gen_value(c):0; cnt+=v[j]!=0; eset(row,j,s->p,v[j]); }
    double thr=gen_thr(c,s); if(CH(c,2)) { int j=rint_(&c->r,0,N-1); if(v[j]!=0) thr=(s->p==single_real||s->p==single_complex)?(float)cab(v[j]):(double)cab(v[j]); }
    op_begin(c,"set_row","s%d row %d thr=%.17g nnz=%d",k,i,thr,cnt);
    { int U=units(c,s); upat(c,s,PA); int ui=unit_of(c,s,i); if(s->t!=ellblock) memset(PA+ui*U,0,U); for(int j=0;j<N;j++) if(cab(v[j])>thr*(1-1e-6L)&&v[j]!=0) PA[ui*U+unit_of(c,s,j)]=1; int n=0; for(int x=0;x<U;x++) n+=PA[ui*U+x]; allow(c,n,cap(c,s)); }
    LIB(bml_set_row(s->A,i,row,thr)); EACH(e,N) ex(e,s->v[e],0,0); for(int j=0;j<N;j++) ex(i*N+j,v[j],0,thr>0?thr*(1+1e-6L):0); verify(c,s); 
    if(s->t==ellpack||s->t==csr) for(int j=0;j<N;j++) if(cab(v[j])<=thr*(is_cplx(s->p)?1-1e-6L:1)&&s->v[i*N+j]!=0) fail(c,"value","row element (%d,%d)=%.12Lg kept although not above the threshold %.12g",i,j,creall(v[j]),thr);
    verify_const(c,MASK(k)); op_end(c); track_on=0; free(row); track_on=1; return 1; }
static int op_set_diagonal(Ctx*c){ int k=pick(c,0); if(k<0) return 0; Slot*s=&c->s[k]; int N=s->N; void*d=raw(c,N); static cld v[NMAX]; int allz=CH(c,5);
    for(int j=0;j<N;j++){ v[j]=(allz||CH(c,5))?0:gen_value(c); eset(d,j,s->p,v[j]); }
    double thr=gen_thr(c,s); if(CH(c,2)) { int j=rint_(&c->r,0,N-1); if(v[j]!=0) thr=(s->p==single_real||s->p==single_complex)?(float)cab(v[j]):(double)cab(v[j]); }
    op_begin(c,"set_diagonal","s%d thr=%.17g%s",k,thr,allz?" all zero":"");
    { int U=units(c,s); upat(c,s,PA); for(int x=0;x<U;x++) PA[x*U+x]=1; allow(c,maxrow(PA,U),cap(c,s)); }
    LIB(bml_set_diagonal(s->A,d,thr)); EACH(e,N) ex(e,s->v[e],0,0); for(int j=0;j<N;j++) ex(j*N+j,v[j],0,thr>0?thr*(1+1e-6L):0); verify(c,s); verify_const(c,MASK(k)); op_end(c); track_on=0; free(d); track_on=1; return 1; }
#ifndef NO_ELEMENTAL
#include "bml_elemental.h"
#endif
static int op_getters(Ctx*c){ int k=pick(c,0); if(k<0) return 0; Slot*s=&c->s[k]; int N=s->N; op_begin(c,"getters","s%d",k);
    if(!c->dist) for(int q=0;q<N*2;q++){ int i=rint_(&c->r,0,N-1),j=rint_(&c->r,0,N-1); void*g; LIB(g=bml_get_element(s->A,i,j)); cld x=eget(g,0,s->p); if(x!=s->v[i*N+j]) fail(c,"value","get_element(%d,%d) is %.12Lg%+.12Lgi, held %.12Lg%+.12Lgi",i,j,creall(x),cimagl(x),creall(s->v[i*N+j]),cimagl(s->v[i*N+j]));
        if(s->t==dense||s->t==ellpack){ cld y=0; SH->in_lib=1; switch(s->p){ case single_real: y=bml_get_element_single_real(s->A,i,j); break; case double_real: y=bml_get_element_double_real(s->A,i,j); break; case single_complex: y=bml_get_element_single_complex(s->A,i,j); break; default: y=bml_get_element_double_complex(s->A,i,j); } SH->in_lib=0;
            if(y!=s->v[i*N+j]) fail(c,"value","typed get_element(%d,%d) is %.12Lg%+.12Lgi, held %.12Lg%+.12Lgi",i,j,creall(y),cimagl(y),creall(s->v[i*N+j]),cimagl(s->v[i*N+j])); } }
    for(int i=0;i<N;i++){ void*r; LIB(r=bml_get_row(s->A,i)); for(int j=0;j<N;j++) if(eget(r,j,s->p)!=s->v[i*N+j]) fail(c,"value","get_row(%d)[%d] is %.12Lg, held %.12Lg",i,j,creall(eget(r,j,s->p)),creall(s->v[i*N+j])); LIB(bml_free_memory(r)); }
    if(c->dist){ SH->checks_total+=N*N; verify_const(c,0); op_end(c); return 1; }
    void*d; LIB(d=bml_get_diagonal(s->A)); for(int i=0;i<N;i++) if(eget(d,i,s->p)!=s->v[i*N+i]) fail(c,"value","get_diagonal[%d] is %.12Lg, held %.12Lg",i,creall(eget(d,i,s->p)),creall(s->v[i*N+i])); LIB(bml_free_memory(d));
    SH->checks_total+=N*N+3*N; verify_const(c,0); op_end(c); return 1; }

/* ================= copies, conversions, domains ================= */
static int op_copy_new(Ctx*c){ int a=pick(c,0); if(a<0) return 0; int k=freeslot(c,MASK(a)); Slot*s=&c->s[a]; int N=s->N; op_begin(c,"copy_new","s%d -> s%d",a,k); bml_matrix_t*B; LIB(B=bml_copy_new(s->A)); if(B==s->A) fail(c,"value","copy is the source");
    adopt(c,k,B,s->t,s->p,N,s->M); EACH(e,N) ex(e,s->v[e],0,0); verify(c,&c->s[k]); check_meta(c,&c->s[k]); verify_const(c,MASK(k)); op_end(c); return 1; }
static int op_copy(Ctx*c){ int a=pick(c,0); if(a<0) return 0; int k=pick(c,MASK(a)); if(k<0) return 0; Slot*s=&c->s[a]; int N=s->N; op_begin(c,"copy","s%d -> s%d",a,k); if(s->t==ellpack) allow(c,bml_get_M(s->A),bml_get_M(c->s[k].A)); if(s->t==ellblock){ upat(c,s,PA); allow(c,maxrow(PA,units(c,s)),cap(c,&c->s[k])); } LIB(bml_copy(s->A,c->s[k].A)); EACH(e,N) ex(e,s->v[e],0,0); verify(c,&c->s[k]); verify_const(c,MASK(k)); op_end(c); return 1; }
static int op_convert(Ctx*c){ int a=pick(c,0); if(a<0) return 0; Slot*s=&c->s[a]; int N=s->N; static const bml_matrix_type_t ty[]={dense,ellpack,csr,ellblock}; bml_matrix_type_t t=ty[rint_(&c->r,0,3)];
    bml_matrix_precision_t p=(bml_matrix_precision_t)rint_(&c->r,1,4); if(CH(c,2)) p=s->p; if(is_cplx(s->p)&&!is_cplx(p)) p=(p==single_real)?single_complex:double_complex;
    int M=N; unsigned char *P=PA; int need=0; memset(P,0,N*N); EACH(e,N) P[e]=s->v[e]!=0; need=maxrow(P,N); if(t==ellpack&&CH(c,3)) M=need>0?rint_(&c->r,need,N):N; if(c->dist) M=s->M;
    op_begin(c,"convert","s%d %s/%s -> %s/%s M=%d",a,tname(s->t),pname(s->p),tname(t),pname(p),M); bml_matrix_t*B; LIB(B=bml_convert(s->A,t,p,M,DM));
    Slot n; memset(&n,0,sizeof n); static cld nv[NMAX*NMAX]; n.v=nv; n.A=B; n.t=t; n.p=p; n.N=N; n.M=M; n.id=99; if(!B) fail(c,"value","null conversion"); 
    if(c->dist?bml_get_M(B)!=M:t==csr?bml_get_M(B)<M:bml_get_M(B)!=(t==dense?N:M)) fail(c,"meta","converted row capacity %d, asked %d",bml_get_M(B),M);
    ld el=fmaxl(epsof(p),0); EACH(e,N) ex(e,s->v[e],2*el*cab(s->v[e])+((p==single_real||p==single_complex)?2e-45L:0),0); verify(c,&n); verify_const(c,0);
    readback(c,&n);
    if(!c->dist){ int i=rint_(&c->r,0,N-1),j=rint_(&c->r,0,N-1); double complex al[2]; eset(al,0,p,7); if(nv[i*N+j]!=0||t==dense){ LIB(bml_set_element(B,i,j,al)); verify_const(c,0); } }
    if(t==s->t&&p==s->p&&M==s->M&&CH(c,2)){ int k=freeslot(c,MASK(a)); adopt(c,k,B,t,p,N,M); resync(c,&c->s[k]); verify_const(c,0); op_end(c); return 1; }
    LIB(bml_deallocate(&B)); verify_const(c,0); op_end(c); return 1; }
static bml_domain_t *dom(Slot*s,int two){ switch(s->t){ case dense: return two?((bml_matrix_dense_t*)s->A)->domain2:((bml_matrix_dense_t*)s->A)->domain; case ellpack: return two?((bml_matrix_ellpack_t*)s->A)->domain2:((bml_matrix_ellpack_t*)s->A)->domain; default: return NULL; } }
static int op_domain(Ctx*c){ if(c->dist) return 0; int a=pick(c,0); if(a<0) return 0; Slot*s=&c->s[a]; int N=s->N; if(s->t!=dense&&s->t!=ellpack) return 0;
    op_begin(c,"domain","s%d",a); bml_domain_t*d=dom(s,0); int o[5]={d->localRowMin[0],d->localRowMax[0],d->localRowExtent[0],d->localDispl[0],d->localElements[0]};
    if(o[0]!=0||o[1]!=N||o[2]!=N) fail(c,"value","domain covers [%d,%d) extent %d of %d rows",o[0],o[1],o[2],N);
    LIB(bml_save_domain(s->A)); int mn[1]={1},mx[1],nn[3]; mx[0]=rint_(&c->r,1,3); for(int q=0;q<3;q++) nn[q]=rint_(&c->r,1,N);
    LIB(bml_update_domain(s->A,mn,mx,nn)); { int tot=0; for(int q=0;q<mx[0];q++) tot+=nn[q]; d=dom(s,0); if(d->localRowMin[0]!=0||d->localRowMax[0]!=tot||d->localRowExtent[0]!=tot) fail(c,"value","updated domain covers [%d,%d), parts hold %d rows",d->localRowMin[0],d->localRowMax[0],tot); } LIB(bml_restore_domain(s->A)); d=dom(s,0);
    int n[5]={d->localRowMin[0],d->localRowMax[0],d->localRowExtent[0],d->localDispl[0],d->localElements[0]}; for(int q=0;q<5;q++) if(n[q]!=o[q]) fail(c,"value","restored domain field %d is %d, saved %d",q,n[q],o[q]);
    bml_domain_t*x,*y; LIB(x=bml_default_domain(N,s->M,DM)); LIB(y=bml_default_domain(N+3,s->M,DM)); LIB(bml_copy_domain(x,y));
    if(y->localRowMin[0]!=x->localRowMin[0]||y->localRowMax[0]!=x->localRowMax[0]||y->localRowExtent[0]!=x->localRowExtent[0]||y->localDispl[0]!=x->localDispl[0]||y->localElements[0]!=x->localElements[0]||x->localRowMax[0]!=N) fail(c,"value","copied domain differs");
    y->localRowMax[0]=-5; if(x->localRowMax[0]!=N) fail(c,"value","copied domain aliases its source"); y->localRowMax[0]=N;
    LIB(bml_deallocate_domain(x)); LIB(bml_deallocate_domain(y)); verify_const(c,0); op_end(c); return 1; }

/* ================= addition ================= */
static double factor(Ctx*c){ static const double f[]={0,1,-1,0.5,2,-0.25,1,-1,3}; int k=rint_(&c->r,0,11); return k<9?f[k]:(c->vmode<=1?rint_(&c->r,-3,3):2*runi(&c->r)-1); }
static ld stol(Ctx*c,ld mag){ return 8*EPS(c)*mag+((c->p==single_real||c->p==single_complex)?1e-40L:1e-300L); }
static int op_add_(Ctx*c,int norm){ int a=pick(c,0); if(a<0) return 0; int b=pick(c,MASK(a)); if(b<0) return 0; Slot*A=&c->s[a],*B=&c->s[b]; int N=A->N; if(norm&&c->t==csr) return 0; double al=factor(c),be=factor(c),thr=gen_thr(c,CH(c,2)?A:B);
    op_begin(c,norm?"add_norm":"add","s%d += alpha=%.9g s%d beta=%.9g thr=%.17g",a,al,b,be,thr); upat(c,A,PA); upat(c,B,PB); int U=units(c,A); for(int i=0;i<U*U;i++) PA[i]|=PB[i]; allow(c,maxrow(PA,U),cap(c,A));
    EACH(e,N){ cld x=al*A->v[e]+be*B->v[e]; ex(e,x,stol(c,cab(al*A->v[e])+cab(be*B->v[e])),c->t==dense?0:thr*(1+1e-5L)); }
    if(norm) LIB(bml_add_norm(A->A,B->A,al,be,thr)); else LIB(bml_add(A->A,B->A,al,be,thr)); verify(c,A); verify_const(c,MASK(a)); op_end(c); return 1; }
static int op_add(Ctx*c){return op_add_(c,0);} static int op_add_norm(Ctx*c){return op_add_(c,1);}
static int op_addid_(Ctx*c,int sc){ int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; double al=sc?factor(c):1,be=factor(c),thr=gen_thr(c,A);
    op_begin(c,sc?"scale_add_identity":"add_identity","s%d alpha=%.9g beta=%.9g thr=%.17g",a,al,be,thr); upat(c,A,PA); int U=units(c,A); for(int i=0;i<U;i++) PA[i*U+i]=1; allow(c,maxrow(PA,U),cap(c,A));
    EACH(e,N){ ld d=(e/N==e%N)?be:0; ex(e,al*A->v[e]+d,stol(c,cab(al*A->v[e])+fabsl(d)),c->t==dense?0:thr*(1+1e-5L)); }
    if(sc) LIB(bml_scale_add_identity(A->A,al,be,thr)); else LIB(bml_add_identity(A->A,be,thr)); verify(c,A); verify_const(c,MASK(a)); op_end(c); return 1; }
static int op_add_identity(Ctx*c){return op_addid_(c,0);} static int op_scale_add_identity(Ctx*c){return op_addid_(c,1);}

/* ================= products ================= */
static void matmul(Slot*A,Slot*B,cld*out,ld*mag){ int N=A->N; for(int i=0;i<N;i++) for(int j=0;j<N;j++){ cld x=0; ld m=0; for(int k=0;k<N;k++){ cld t=A->v[i*N+k]*B->v[k*N+j]; x+=t; m+=cab(t);} out[i*N+j]=x; mag[i*N+j]=m; } }
static void pprod(unsigned char*A,unsigned char*B,unsigned char*C,int U){ memset(C,0,U*U); for(int i=0;i<U;i++) for(int k=0;k<U;k++) if(A[i*U+k]) for(int j=0;j<U;j++) C[i*U+j]|=B[k*U+j]; }
static ld ptol(Ctx*c,int N,ld mag){ return (N+8)*4*EPS(c)*mag+((c->p==single_real||c->p==single_complex)?1e-37L:1e-300L); }
static int op_multiply(Ctx*c){ int a=pick(c,0); if(a<0) return 0; int b=CH(c,5)?a:pick(c,0); int k=pick(c,MASK(a)|MASK(b)); if(k<0) return 0; Slot*A=&c->s[a],*B=&c->s[b],*C=&c->s[k]; int N=A->N; double al=factor(c),be=CH(c,3)?0:factor(c),thr=CH(c,2)?0:gen_thr(c,C);
    op_begin(c,"multiply","s%d = %.9g*s%d*s%d + %.9g*s%d thr=%.17g",k,al,a,b,be,k,thr); matmul(A,B,T1,R1); upat(c,A,PA); upat(c,B,PB); int U=units(c,A); pprod(PA,PB,PC,U); upat(c,C,PA); for(int i=0;i<U*U;i++) PC[i]|=PA[i]; if(c->t!=dense) for(int i=0;i<U;i++) PC[i*U+i]=1; allow(c,maxrow(PC,U),cap(c,C));
    ld th=thr*(1+1e-5L);
    EACH(e,N){ cld x=al*T1[e]+be*C->v[e]; ld tol=ptol(c,N,fabsl(al)*R1[e]+cab(be*C->v[e])); if(c->dist&&c->t!=dense) tol+=2*c->dist*thr*(1+fabsl(al))*(1+1e-5L); ex(e,x,tol,c->t==dense?0:th+tol);
        ALTon[e]=0; if(c->t!=dense&&thr>0){ ld pt=ptol(c,N,R1[e]); if(cab(T1[e])<=th+pt){ ALTon[e]=1; ALTv[e]=be*C->v[e]; } } }
    if(thr==0||c->t==dense) EACH(e,N) DROPs[e]=0;
    LIB(bml_multiply(A->A,B->A,C->A,al,be,thr)); verify_alt(c,C); verify_const(c,MASK(k)); op_end(c); return 1; }
static void expect_product(Ctx*c,int N,double thr){ ld th=thr*(1+1e-5L); EACH(e,N){ ld tol=ptol(c,N,R1[e]); if(c->dist&&c->t!=dense) tol+=4*c->dist*thr*(1+1e-5L); ex(e,T1[e],tol,(c->t==dense||thr==0)?0:th+tol); } }
static int op_multiply_x2(Ctx*c){ int a=pick(c,0); if(a<0) return 0; int k=pick(c,MASK(a)); if(k<0) return 0; Slot*A=&c->s[a],*C=&c->s[k]; int N=A->N; double thr=CH(c,2)?0:gen_thr(c,A);
    op_begin(c,"multiply_x2","s%d = s%d^2 thr=%.17g",k,a,thr); matmul(A,A,T1,R1); upat(c,A,PA); int U=units(c,A); pprod(PA,PA,PC,U); for(int i=0;i<U;i++) PC[i*U+i]=1; allow(c,maxrow(PC,U),cap(c,C)); expect_product(c,N,thr);
    ld tx=0,tx2=0,mx=0,mx2=0,dr=0; for(int i=0;i<N;i++){ int e=i*N+i; tx+=creall(A->v[e]); tx2+=creall(T1[e]); mx+=cab(A->v[e]); mx2+=R1[e]; if(cab(T1[e])<=thr*(1+1e-5L)+TOLs[e]) dr+=cab(T1[e]); if(c->dist&&c->t!=dense) dr+=4*c->dist*thr*(1+1e-5L); }
    double*tr; LIB(tr=bml_multiply_x2(A->A,C->A,thr)); verify(c,C); if(!tr) fail(c,"value","no traces returned"); verify_scalar(c,"trace of X",tr[0],tx,ptol(c,N,mx)); verify_scalar(c,"trace of X*X",tr[1],tx2,ptol(c,2*N,mx2)+dr); LIB(bml_free_memory(tr)); verify_const(c,MASK(k)); op_end(c); return 1; }
static int op_multiply_AB(Ctx*c){ int a=pick(c,0); if(a<0) return 0; int b=CH(c,5)?a:pick(c,0); int k=pick(c,MASK(a)|MASK(b)); if(k<0) return 0; Slot*A=&c->s[a],*B=&c->s[b],*C=&c->s[k]; int N=A->N; double thr=CH(c,2)?0:gen_thr(c,A);
    op_begin(c,"multiply_AB","s%d = s%d*s%d thr=%.17g",k,a,b,thr); matmul(A,B,T1,R1); upat(c,A,PA); upat(c,B,PB); int U=units(c,A); pprod(PA,PB,PC,U); for(int i=0;i<U;i++) PC[i*U+i]=1; allow(c,maxrow(PC,U),cap(c,C)); expect_product(c,N,thr);
    LIB(bml_multiply_AB(A->A,B->A,C->A,thr)); verify(c,C); verify_const(c,MASK(k)); op_end(c); return 1; }
static int op_multiply_adjust(Ctx*c){ int a=pick(c,0); if(a<0) return 0; int b=CH(c,5)?a:pick(c,0); int k=pick(c,MASK(a)|MASK(b)); if(k<0) return 0; Slot*A=&c->s[a],*B=&c->s[b],*C=&c->s[k]; int N=A->N; double thr=CH(c,2)?0:gen_thr(c,A);
    op_begin(c,"multiply_adjust","s%d = s%d*s%d thr=%.17g",k,a,b,thr); matmul(A,B,T1,R1); upat(c,A,PA); upat(c,B,PB); int U=units(c,A); pprod(PA,PB,PC,U); for(int i=0;i<U;i++) PC[i*U+i]=1; int over=maxrow(PC,U)>cap(c,C); allow(c,maxrow(PC,U),cap(c,C)); expect_product(c,N,thr);
    if(over) EACH(e,N) DROPs[e]=1e30L;
    LIB(bml_multiply_adjust_AB(A->A,B->A,C->A,thr)); verify(c,C);
    if(over&&c->t!=ellblock){ ld maxd=0,mink=1e30L; EACH(e,N){ if(e/N==e%N) continue; if(C->v[e]==0){ if(cab(T1[e])-TOLs[e]>maxd) maxd=cab(T1[e])-TOLs[e]; } else if(cab(T1[e])+TOLs[e]<mink) mink=cab(T1[e])+TOLs[e]; } if(maxd>mink*(1+1e-5L)) fail(c,"value","an element of magnitude %.9Lg was dropped while one of %.9Lg was kept",maxd,mink); }
    verify_const(c,MASK(k)); op_end(c); return 1; }
static int op_element_multiply(Ctx*c){ if(c->t==ellblock) return 0; int a=pick(c,0); if(a<0) return 0; int b=CH(c,5)?a:pick(c,0); int k=pick(c,MASK(a)|MASK(b)); if(k<0) return 0; Slot*A=&c->s[a],*B=&c->s[b],*C=&c->s[k]; int N=A->N; double thr=CH(c,2)?0:gen_thr(c,A);
    op_begin(c,"element_multiply","s%d = s%d.*s%d thr=%.17g",k,a,b,thr); upat(c,A,PA); upat(c,B,PB); int U=units(c,A); for(int i=0;i<U*U;i++) PC[i]=PA[i]&PB[i]; allow(c,maxrow(PC,U)+1,cap(c,C)); if(cap(c,C)<cap(c,A)) allow(c,maxrow(PA,U),cap(c,C)); /* the rows of A are its work space */
    EACH(e,N){ cld x=A->v[e]*B->v[e]; ex(e,x,stol(c,cab(x)),(c->t==dense||thr==0)?0:thr*(1+1e-5L)); }
    LIB(bml_element_multiply_AB(A->A,B->A,C->A,thr)); verify(c,C); verify_const(c,MASK(k)); op_end(c); return 1; }

/* ================= scale, threshold ================= */
static int op_scale_(Ctx*c,int mode){ static const char*nm[]={"scale_new","scale","scale_inplace"}; int a=pick(c,0); if(a<0) return 0; int k=a; if(mode==0) k=freeslot(c,MASK(a)); if(mode==1){ k=CH(c,6)?a:pick(c,MASK(a)); if(k<0) return 0; } Slot*A=&c->s[a]; int N=A->N;
    cld f; switch(rint_(&c->r,0,7)){ case 0: f=0; break; case 1: f=1; break; case 2: f=-1; break; case 3: f=0.5L; break; default: f=gen_value(c); } f=roundp(f,c->p); double complex al[2]; eset(al,0,c->p,f);
    op_begin(c,nm[mode],"s%d -> s%d by %.9Lg%+.9Lgi",a,k,creall(f),cimagl(f)); EACH(e,N){ cld x=f*A->v[e]; ex(e,x,stol(c,cab(f)*cab(A->v[e])),0); } if(mode==1&&(A->t==ellpack||A->t==ellblock)){ upat(c,A,PA); allow(c,maxrow(PA,units(c,A)),cap(c,&c->s[k])); }
    if(mode==0){ bml_matrix_t*B; LIB(B=bml_scale_new(al,A->A)); adopt(c,k,B,A->t,A->p,N,A->M); } else if(mode==1) LIB(bml_scale(al,A->A,c->s[k].A)); else LIB(bml_scale_inplace(al,A->A));
    if(eget(al,0,c->p)!=f) fail(c,"const","scale changed its factor"); verify(c,&c->s[k]); verify_const(c,MASK(k)); op_end(c); return 1; }
static int op_scale_new(Ctx*c){return op_scale_(c,0);} static int op_scale(Ctx*c){return op_scale_(c,1);} static int op_scale_inplace(Ctx*c){return op_scale_(c,2);}
static int op_threshold_(Ctx*c,int nw){ int a=pick(c,0); if(a<0) return 0; int k=nw?freeslot(c,MASK(a)):a; Slot*A=&c->s[a]; int N=A->N; double thr=gen_thr(c,A); if(CH(c,2)) thr=gen_thr(c,A);
    op_begin(c,nw?"threshold_new":"threshold","s%d -> s%d thr=%.17g",a,k,thr);
    EACH(e,N){ ld m=cab(A->v[e]); ld z=is_cplx(c->p)?1e-6L:0; if(m>thr*(1+z)) ex(e,A->v[e],0,0); else if(c->t==ellblock||m>thr*(1-z)) ex(e,A->v[e],0,thr*(1+2e-6L)); else ex(e,0,0,0); }
    if(nw){ bml_matrix_t*B; LIB(B=bml_threshold_new(A->A,thr)); adopt(c,k,B,A->t,A->p,N,A->M); } else LIB(bml_threshold(A->A,thr));
    verify(c,&c->s[k]); verify_const(c,MASK(k)); op_end(c); return 1; }
static int op_threshold(Ctx*c){return op_threshold_(c,0);} static int op_threshold_new(Ctx*c){return op_threshold_(c,1);}

/* ================= transpose, reorder ================= */
static int op_transpose_(Ctx*c,int nw){ int a=pick(c,0); if(a<0) return 0; int k=nw?freeslot(c,MASK(a)):a; Slot*A=&c->s[a]; int N=A->N; op_begin(c,nw?"transpose_new":"transpose","s%d -> s%d",a,k);
    upat(c,A,PA); int U=units(c,A); for(int i=0;i<U;i++) for(int j=0;j<U;j++) PB[j*U+i]=PA[i*U+j]; allow(c,maxrow(PB,U),cap(c,A)); if(!nw&&c->t==ellpack&&c->mmode) SH->refuse_ok=1; /* works in place: rows may fill up on the way */
    EACH(e,N) ex(e,A->v[(e%N)*N+e/N],0,0);
    if(nw){ bml_matrix_t*B; LIB(B=bml_transpose_new(A->A)); adopt(c,k,B,A->t,A->p,N,A->M); } else LIB(bml_transpose(A->A)); verify(c,&c->s[k]); verify_const(c,MASK(k)); op_end(c); return 1; }
static int op_transpose(Ctx*c){return op_transpose_(c,0);} static int op_transpose_new(Ctx*c){return op_transpose_(c,1);}
static int op_tri_(Ctx*c,int adj){ if(!(c->t==dense||(adj&&c->t==ellpack))) return 0; int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; int up=CH(c,2); char tr=up?'u':'l'; 
    if(adj&&c->t==ellpack){ /* the target triangle is built by appending: defined for matrices whose target triangle is empty */ }
    op_begin(c,adj?"adjungate_triangle":"transpose_triangle","s%d '%c'",a,tr); upat(c,A,PA); int U=units(c,A); if(c->t==ellpack){ for(int i=0;i<U;i++) for(int j=0;j<U;j++) if(up?j>i:j<i) if(PA[i*U+j]) PA[j*U+i]=1; allow(c,maxrow(PA,U),cap(c,A)); }
    for(int i=0;i<N;i++) for(int j=0;j<N;j++){ int src=up?(i>j):(i<j); cld x=src?A->v[j*N+i]:A->v[i*N+j]; if(src&&adj) x=conjl(x); ex(i*N+j,x,0,0); }
    if(adj) { char s2[2]={tr,0}; LIB(bml_adjungate_triangle(A->A,s2)); } else LIB(bml_transpose_triangle(A->A,tr)); verify(c,A); verify_const(c,MASK(a)); op_end(c); return 1; }
static int op_transpose_triangle(Ctx*c){return op_tri_(c,0);} static int op_adjungate(Ctx*c){return op_tri_(c,1);}
static int op_reorder(Ctx*c){ if(c->t==csr) return 0; int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; int perm[NMAX]; for(int i=0;i<N;i++) perm[i]=i; int kind=rint_(&c->r,0,3); if(kind==0){ for(int i=0;i<N;i++) perm[i]=(i+1)%N; } else if(kind==1&&N>2){ int x=perm[0]; perm[0]=perm[1]; perm[1]=perm[2]; perm[2]=x; } else for(int i=N-1;i>0;i--){ int j=rint_(&c->r,0,i); int x=perm[i]; perm[i]=perm[j]; perm[j]=x; }
    char pb[400]; int o=0; for(int i=0;i<N&&o<380;i++) o+=snprintf(pb+o,sizeof pb-o,"%d ",perm[i]); op_begin(c,"reorder","s%d by %s",a,pb); if(c->t==ellblock) SH->refuse_ok=1;
    for(int i=0;i<N;i++) for(int j=0;j<N;j++) ex(perm[i]*N+perm[j],A->v[i*N+j],0,0); int p0[NMAX]; memcpy(p0,perm,sizeof p0); LIB(bml_reorder(A->A,perm)); if(memcmp(p0,perm,sizeof(int)*N)) fail(c,"const","reorder changed the permutation"); verify(c,A); verify_const(c,MASK(a)); op_end(c); return 1; }

/* ================= traces, norms ================= */
static ld sq(cld z){ return creall(z)*creall(z)+cimagl(z)*cimagl(z); }
static int op_trace(Ctx*c){ int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; op_begin(c,"trace","s%d",a); ld t=0,m=0; for(int i=0;i<N;i++){ t+=creall(A->v[i*N+i]); m+=cab(A->v[i*N+i]); } double r; LIB(r=bml_trace(A->A)); verify_scalar(c,"trace",r,t,ptol(c,N,m)); verify_const(c,0); op_end(c); return 1; }
static int op_trace_mult(Ctx*c){ int a=pick(c,0); if(a<0) return 0; int b=pick(c,0); Slot*A=&c->s[a],*B=&c->s[b]; int N=A->N; op_begin(c,"trace_mult","s%d s%d",a,b); ld t=0,m=0; for(int i=0;i<N;i++) for(int j=0;j<N;j++){ cld x=A->v[i*N+j]*B->v[j*N+i]; t+=creall(x); m+=cab(x); } double r; LIB(r=bml_trace_mult(A->A,B->A)); verify_scalar(c,"trace of the product",r,t,ptol(c,N*N,m)); verify_const(c,0); op_end(c); return 1; }
static int op_sum_squares(Ctx*c){ int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; op_begin(c,"sum_squares","s%d",a); ld t=0; EACH(e,N) t+=sq(A->v[e]); double r; LIB(r=bml_sum_squares(A->A)); verify_scalar(c,"sum of squares",r,t,ptol(c,N*N,t)); verify_const(c,0); op_end(c); return 1; }
static int op_sum_squares2(Ctx*c){ int a=pick(c,0); if(a<0) return 0; int b=pick(c,0); Slot*A=&c->s[a],*B=&c->s[b]; int N=A->N; double al=factor(c),be=factor(c),thr=gen_thr(c,A); op_begin(c,"sum_squares2","s%d s%d alpha=%.9g beta=%.9g thr=%.17g",a,b,al,be,thr);
    ld t=0,m=0,dr=0; EACH(e,N){ cld x=al*A->v[e]+be*B->v[e]; ld mg=cab(al*A->v[e])+cab(be*B->v[e]); t+=sq(x); m+=mg*mg; if(cab(x)<=thr+stol(c,mg)) dr+=sq(x)+2*thr*stol(c,mg); } double r; LIB(r=bml_sum_squares2(A->A,B->A,al,be,thr)); verify_scalar(c,"sum of squares of alpha*A+beta*B",r,t-dr/2,ptol(c,N*N,m)+dr/2); verify_const(c,0); op_end(c); return 1; }
static int op_sum_AB(Ctx*c){ int a=pick(c,0); if(a<0) return 0; int b=pick(c,0); Slot*A=&c->s[a],*B=&c->s[b]; int N=A->N; double al=factor(c),thr=gen_thr(c,A); op_begin(c,"sum_AB","s%d s%d alpha=%.9g thr=%.17g",a,b,al,thr);
    ld t=0,m=0,dr=0; EACH(e,N){ cld x=al*A->v[e]*B->v[e]; t+=creall(x); m+=cab(x); if(cab(x)<=thr*(1+1e-5L)) dr+=cab(x); } double r; LIB(r=bml_sum_AB(A->A,B->A,al,thr)); verify_scalar(c,"sum of alpha*A.*B",r,t,ptol(c,N*N,m)+dr); verify_const(c,0); op_end(c); return 1; }
static int op_ss_submatrix(Ctx*c){ if(c->t==ellblock) return 0; int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; int core=rint_(&c->r,0,N); op_begin(c,"sum_squares_submatrix","s%d core=%d",a,core); ld t=0; for(int i=0;i<core;i++) for(int j=0;j<core;j++) t+=sq(A->v[i*N+j]); double r; LIB(r=bml_sum_squares_submatrix(A->A,core)); verify_scalar(c,"sum of squares of the core",r,t,ptol(c,N*N,t)); verify_const(c,0); op_end(c); return 1; }
static int op_fnorm(Ctx*c){ int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; op_begin(c,"fnorm","s%d",a); ld t=0; EACH(e,N) t+=sq(A->v[e]); t=sqrtl(t); double r; LIB(r=bml_fnorm(A->A)); verify_scalar(c,"Frobenius norm",r,t,ptol(c,N*N,t)+(c->p==single_real||c->p==single_complex?2e-19L*N:0)); /* squares may be smaller than the smallest number */ verify_const(c,0); op_end(c); return 1; }
static int op_fnorm2(Ctx*c){ if(c->dist) return 0; if(c->t==csr) return 0; int a=pick(c,0); if(a<0) return 0; int b=pick(c,0); Slot*A=&c->s[a],*B=&c->s[b]; int N=A->N; op_begin(c,"fnorm2","s%d s%d",a,b); ld t=0,m=0; EACH(e,N){ t+=sq(A->v[e]-B->v[e]); ld g=cab(A->v[e])+cab(B->v[e]); m+=g*g; } t=sqrtl(t); double r; LIB(r=bml_fnorm2(A->A,B->A)); ld tol=t>0?ptol(c,N*N,m)/t:0; ld t2=sqrtl(ptol(c,4,m)*0.01L)+0; verify_scalar(c,"Frobenius norm of the difference",r,t,fminl(tol>0?tol:t2,sqrtl(ptol(c,N*N,m)))+1e-300L); verify_const(c,0); op_end(c); return 1; }

/* ================= bounds, normalise ================= */
static int op_gersh_(Ctx*c,int part){ if(c->dist&&(part||c->t==ellblock)) return 0; int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; if(part&&c->t==ellblock) return 0; int n=part?rint_(&c->r,1,N):N; 
    if(is_cplx(c->p)){ /* bounds are meaningful for real diagonals */ for(int i=0;i<N;i++) if(cimagl(A->v[i*N+i])!=0) return 0; }
    op_begin(c,part?"gershgorin_partial":"gershgorin","s%d rows=%d",a,n); ld lo=1e4000L,hi=-1e4000L,mg=0; for(int i=0;i<n;i++){ ld r=0,d=creall(A->v[i*N+i]); for(int j=0;j<N;j++) if(j!=i) r+=cab(A->v[i*N+j]); if(d-r<lo) lo=d-r; if(d+r>hi) hi=d+r; if(fabsl(d)+r>mg) mg=fabsl(d)+r; }
    double*e; if(part) LIB(e=bml_gershgorin_partial(A->A,n)); else LIB(e=bml_gershgorin(A->A)); verify_scalar(c,"lower spectral bound",e[0],lo,ptol(c,N,2*mg)); verify_scalar(c,"upper spectral bound",e[1],hi,ptol(c,N,2*mg)); LIB(bml_free_memory(e)); verify_const(c,0); op_end(c); return 1; }
static int op_gershgorin(Ctx*c){return op_gersh_(c,0);} static int op_gershgorin_partial(Ctx*c){return op_gersh_(c,1);}
static int op_normalize(Ctx*c){ int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; double mn,mx; int k=rint_(&c->r,0,3); if(k==0){mn=-3;mx=5;} else if(k==1){mn=-8;mx=-2;} else if(k==2){mn=0;mx=1;} else { mn=4*runi(&c->r)-3; mx=mn+0.25+3*runi(&c->r);} 
    op_begin(c,"normalize","s%d min=%.17g max=%.17g",a,mn,mx); upat(c,A,PA); int U=units(c,A); for(int i=0;i<U;i++) PA[i*U+i]=1; allow(c,maxrow(PA,U),cap(c,A)); ld w=(ld)mx-mn;
    EACH(e,N){ ld d=(e/N==e%N)?(ld)mx/w:0; cld x=d-A->v[e]/w; ex(e,x,stol(c,4*(fabsl(d)+cab(A->v[e])/w+fabsl(mx)/w)*((e/N==e%N)?1:0)+4*cab(A->v[e])/w),0); }
    LIB(bml_normalize(A->A,mn,mx)); verify(c,A); verify_const(c,MASK(a)); op_end(c); return 1; }
static int op_offdiag(Ctx*c){ if(c->t==ellblock) return 0; int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; int inc=CH(c,2); op_begin(c,"accumulate_offdiag","s%d include_diag=%d",a,inc); void*r; LIB(r=bml_accumulate_offdiag(A->A,inc));
    for(int i=0;i<N;i++){ ld t=0; for(int j=0;j<N;j++) if(inc||i!=j) t+=cab(A->v[i*N+j]); cld x=eget(r,i,A->p); if(cab(x-t)>ptol(c,N,t)) fail(c,"value","row %d magnitude sum is %.12Lg, expected %.12Lg",i,creall(x),t); } SH->checks_total+=N; LIB(bml_free_memory(r)); verify_const(c,0); op_end(c); return 1; }

/* ================= eigen-decomposition, inverse ================= */
static int mk_from(Ctx*c,const cld*v){ int k=freeslot(c,0); op_import_into(c,k,v,0); return k; }
static int op_diagonalize(Ctx*c){ int N=c->N; static cld H[NMAX*NMAX]; int kind=rint_(&c->r,0,8); int vm=c->vmode; if(c->vmode>=3) c->vmode=2;
    memset(H,0,sizeof(cld)*N*N); if(kind==0) {} else if(kind==1) for(int i=0;i<N;i++) H[i*N+i]=3; else if(kind==2) for(int i=0;i<N;i++) H[i*N+i]=creall(gen_value(c)); 
    else if(kind==3){ for(int i=0;i<N;i++) for(int j=0;j<N;j++) H[i*N+j]=1; } else { gen_dense(c,N,H,c->N); for(int i=0;i<N;i++){ H[i*N+i]=creall(H[i*N+i]); for(int j=i+1;j<N;j++){ if(CH(c,2)) H[j*N+i]=conjl(H[i*N+j]); else H[i*N+j]=conjl(H[j*N+i]); } } if(kind==4) for(int i=0;i<N;i++) H[i*N+i]=roundp(H[i*N+i]-10,c->p); }
    c->vmode=vm; int a=mk_from(c,H); int k=CH(c,2)?pick(c,MASK(a)):-1; if(k<0){ k=freeslot(c,MASK(a)); op_begin(c,"zero","s%d",k); bml_matrix_t*Z; LIB(Z=bml_zero_matrix(c->t,c->p,N,c->M,DM)); adopt(c,k,Z,c->t,c->p,N,c->M); resync(c,&c->s[k]); op_end(c); }
    Slot*A=&c->s[a],*V=&c->s[k]; op_begin(c,"diagonalize","s%d kind %d -> s%d",a,kind,k); if(c->mmode) SH->refuse_ok=1; void*ev=raw(c,N); memset(ev,0x7f,16*N);
    LIB(bml_diagonalize(A->A,ev,V->A)); resync(c,V); verify_const(c,MASK(k)); ld nrm=0; EACH(e,N) nrm+=sq(A->v[e]); nrm=sqrtl(nrm)+1e-30L; ld tol=60*N*EPS(c); ld prev=-1e4000L;
    for(int i=0;i<N;i++){ cld e=eget(ev,i,c->p); ld x=creall(e); if(!isfinite((double)x)||fabsl(cimagl(e))>tol*nrm) fail(c,"value","eigenvalue %d is %.9Lg%+.9Lgi",i,x,cimagl(e)); if(x<prev-tol*nrm) fail(c,"value","eigenvalues not ascending: e[%d]=%.12Lg after %.12Lg",i,x,prev); prev=x; }
    for(int i=0;i<N;i++) for(int j=0;j<N;j++){ cld hv=0; for(int q=0;q<N;q++) hv+=A->v[i*N+q]*V->v[q*N+j]; cld r=hv-V->v[i*N+j]*creall(eget(ev,j,c->p)); if(!(cab(r)<=tol*nrm)) fail(c,"value","residual of H*V - V*diag(e) at (%d,%d) is %.6Lg, bound %.6Lg",i,j,cab(r),tol*nrm);
        cld vv=0; for(int q=0;q<N;q++) vv+=conjl(V->v[q*N+i])*V->v[q*N+j]; ld to=tol; if(i!=j&&is_cplx(c->p)) to=fabsl(creall(eget(ev,i,c->p))-creall(eget(ev,j,c->p)))<=1e-3L*nrm?(c->p==single_complex?0.3L:0.05L):50*tol; /* LAPACK's heevr (MRRR) only separates clustered eigenvectors roughly */ if(!(cab(vv-(i==j))<=to)) fail(c,"value","V^H*V at (%d,%d) is %.9Lg%+.9Lgi",i,j,creall(vv),cimagl(vv)); }
    SH->checks_total+=2*N*N+N; op_end(c); track_on=0; free(ev); track_on=1; return 1; }
static int op_inverse(Ctx*c){ int N=c->N; static cld H[NMAX*NMAX]; int vm=c->vmode; if(c->vmode>=3) c->vmode=2; gen_dense(c,N,H,N); c->vmode=vm;
    int kind=rint_(&c->r,0,5);
    for(int i=0;i<N;i++){ ld s=0; for(int j=0;j<N;j++) if(j!=i) s+=cab(H[i*N+j]); ld d=s+0.5L+runi(&c->r); H[i*N+i]=roundp(CH(c,2)?d:-d,c->p); }
    if(kind<=2&&N>1){ /* permute rows so pivoting is needed */ for(int i=N-1;i>0;i--){ int j=rint_(&c->r,0,i); for(int q=0;q<N;q++){ cld x=H[i*N+q]; H[i*N+q]=H[j*N+q]; H[j*N+q]=x; } } }
    if(kind==5) for(int i=0;i<N;i++) for(int j=0;j<N;j++) H[i*N+j]=(i==j)?roundp(1+rint_(&c->r,0,3),c->p):0;
    int a=mk_from(c,H); int k=freeslot(c,MASK(a)); Slot*A=&c->s[a]; op_begin(c,"inverse","s%d -> s%d",a,k); if(c->mmode) SH->refuse_ok=1; bml_matrix_t*X; LIB(X=bml_inverse(A->A)); adopt(c,k,X,A->t,A->p,N,A->M); Slot*V=&c->s[k]; resync(c,V); verify_const(c,MASK(k));
    ld na=0,nx=0; EACH(e,N){ na+=sq(A->v[e]); nx+=sq(V->v[e]); } ld tol=40*N*EPS(c)*sqrtl(na)*sqrtl(nx); if(!(nx<=9.0L*N)) fail(c,"value","inverse of a well conditioned matrix has norm %.6Lg",sqrtl(nx)); /* |d|-sum>=1/2 bounds the inverse */ if(tol>0.5L) tol=0.5L;
    for(int i=0;i<N;i++) for(int j=0;j<N;j++){ cld x=0; for(int q=0;q<N;q++) x+=A->v[i*N+q]*V->v[q*N+j]; if(!(cab(x-(i==j))<=tol)) fail(c,"value","A*X at (%d,%d) is %.9Lg%+.9Lgi (tolerance %.3Lg)",i,j,creall(x),cimagl(x),tol); } SH->checks_total+=N*N; op_end(c); return 1; }
static int op_inverse_singular(Ctx*c){ int N=c->N; static cld H[NMAX*NMAX]; int vm=c->vmode; c->vmode=0; gen_dense(c,N,H,N); c->vmode=vm; int kind=rint_(&c->r,0,2),i=rint_(&c->r,0,N-1); if(kind==0) memset(H,0,sizeof(cld)*N*N); else if(kind==1) for(int j=0;j<N;j++) H[i*N+j]=0; else for(int j=0;j<N;j++) H[j*N+i]=0;
    int a=mk_from(c,H); Slot*A=&c->s[a]; op_begin(c,"inverse_singular","s%d kind %d index %d",a,kind,i); SH->refuse_ok=1; SH->nover++; bml_matrix_t*X; LIB(X=bml_inverse(A->A)); 
    Slot n; memset(&n,0,sizeof n); static cld nv[NMAX*NMAX]; n.v=nv; n.A=X; n.t=c->t; n.p=c->p; n.N=N; n.M=A->M; n.id=98; if(!X) return 1; 
    fail(c,"value","singular matrix inverted without a reported error"); return 1; }

/* ================= submatrices ================= */
static int op_extract(Ctx*c){ int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; int bn=rint_(&c->r,1,N),ir=rint_(&c->r,0,N-bn),ic=rint_(&c->r,0,N-bn);
    int nb0=0;
    if(c->t==ellblock){ bml_matrix_ellblock_t*E=A->A; int b0=rint_(&c->r,0,E->NB-1),b1=rint_(&c->r,b0,E->NB-1); ir=0; for(int b=0;b<b0;b++) ir+=E->bsize[b]; bn=0; for(int b=b0;b<=b1;b++) bn+=E->bsize[b]; ic=ir; nb0=b1-b0+1; (void)nb0;
        /* the result uses the process-wide partition: only aligned partitions are defined */
        if(bn!=N) return 0; }
    int M=(c->mmode==0||c->t!=ellpack)?bn:(bn<c->M?bn:c->M);
    op_begin(c,"extract_submatrix","s%d (%d,%d) size %d M=%d",a,ir,ic,bn,M); upat(c,A,PA); if(c->t==ellpack){ int m=0; for(int i=0;i<bn;i++){ int n=0; for(int j=0;j<bn;j++) n+=PA[(i+ir)*N+j+ic]; if(n>m)m=n; } allow(c,m,M); }
    bml_matrix_t*B; LIB(B=bml_extract_submatrix(A->A,ir,ic,bn,M)); Slot n; memset(&n,0,sizeof n); static cld nv[NMAX*NMAX]; n.v=nv; n.A=B; n.t=c->t; n.p=c->p; n.N=bn; n.M=M; n.id=97; if(!B) fail(c,"value","null submatrix");
    for(int i=0;i<bn;i++) for(int j=0;j<bn;j++) ex(i*bn+j,A->v[(i+ir)*N+j+ic],0,0); verify(c,&n); verify_const(c,0);
    /* put it (or a modified version) back somewhere */
    int k=pick(c,0); Slot*D=&c->s[k]; int jr=rint_(&c->r,0,N-bn),jc=rint_(&c->r,0,N-bn); if(c->t==ellblock){ jr=ir; jc=ic; }
    if(CH(c,2)&&bn>=1&&c->t!=ellblock){ cld f=roundp(-2,c->p); double complex al[2]; eset(al,0,c->p,f); op_begin(c,"scale_inplace","tmp by -2"); LIB(bml_scale_inplace(al,B)); resync(c,&n); op_end(c); }
    op_begin(c,"assign_submatrix","tmp(size %d) -> s%d at (%d,%d)",bn,k,jr,jc);
    EACH(e,N) ex(e,D->v[e],0,0); for(int i=0;i<bn;i++) for(int j=0;j<bn;j++) ex((i+jr)*N+j+jc,nv[i*bn+j],0,0);
    { int U=units(c,D); upat(c,D,PA); if(c->t==ellpack){ Slot q=n; upat(c,&q,PB); for(int i=0;i<bn;i++) for(int j=0;j<bn;j++) if(PB[i*bn+j]) PA[(i+jr)*N+j+jc]=1; } allow(c,maxrow(PA,U),cap(c,D)); }
    LIB(bml_assign_submatrix(D->A,B,jr,jc)); verify(c,D); verify_const(c,MASK(k)); { Slot q=n; observe(c,&q,T1,NULL); for(int e=0;e<bn*bn;e++) if(T1[e]!=nv[e]) fail(c,"const","assign changed the submatrix"); }
    LIB(bml_deallocate(&B)); verify_const(c,0); op_end(c); return 1; }
static int ref_index(Slot*A,Slot*B,unsigned char*PAp,unsigned char*PBp,const int*nl,int ns,int dj,unsigned char*want){ int N=B->N,n=0; memset(want,0,N); for(int q=0;q<ns;q++) if(!want[nl[q]]){want[nl[q]]=1;n++;} unsigned char cur[NMAX]; 
    for(int q=0;q<ns;q++) for(int j=0;j<N;j++){ if(PBp[nl[q]*N+j]&&!want[j]){want[j]=2;n++;} if(A&&PAp[nl[q]*N+j]&&!want[j]){want[j]=2;n++;} }
    if(dj){ memcpy(cur,want,N); for(int i=0;i<N;i++) if(cur[i]) for(int j=0;j<N;j++) if(PBp[i*N+j]&&!want[j]){want[j]=2;n++;} } return n; }
static int op_submatrix_index(Ctx*c){ if(c->t!=ellpack) return 0; int graph=CH(c,3); int a=pick(c,0); if(a<0) return 0; int b=pick(c,0); Slot*A=&c->s[a],*B=&c->s[b]; int N=A->N; int nl[NMAX],ns=rint_(&c->r,1,N); if(CH(c,2)) ns=rint_(&c->r,1,(N+3)/4); for(int i=0;i<ns;i++) nl[i]=rint_(&c->r,0,N-1); if(!CH(c,3)){ int p[NMAX]; for(int i=0;i<N;i++)p[i]=i; for(int i=N-1;i>0;i--){int j=rint_(&c->r,0,i);int x=p[i];p[i]=p[j];p[j]=x;} for(int i=0;i<ns;i++) nl[i]=p[i]; }
    int dj=CH(c,2); track_on=0; int*out=malloc(sizeof(int)*N); track_on=1; int vs[2]={-1,-1}; for(int i=0;i<N;i++) out[i]=-7;
    char nb[300]; int o=0; for(int i=0;i<ns&&o<280;i++) o+=snprintf(nb+o,sizeof nb-o,"%d ",nl[i]);
    op_begin(c,graph?"submatrix_index_graph":"submatrix_index","A=s%d B=s%d nodes %s dj=%d",a,b,nb,dj); upat(c,A,PA); upat(c,B,PB); unsigned char want[NMAX]; int n=ref_index(graph?NULL:A,B,PA,PB,nl,ns,dj,want);
    if(graph) LIB(bml_matrix2submatrix_index_graph(B->A,nl,ns,out,vs,dj)); else LIB(bml_matrix2submatrix_index(A->A,B->A,nl,ns,out,vs,dj));
    int core=0; for(int i=0;i<N;i++) core+=want[i]==1; if(vs[0]!=n||vs[1]!=core) fail(c,"value","list sizes %d/%d, expected %d/%d",vs[0],vs[1],n,core);
    unsigned char got[NMAX]; memset(got,0,N); int pos=0; unsigned char cs[NMAX]; memset(cs,0,N); for(int q=0;q<ns;q++) if(!cs[nl[q]]){ cs[nl[q]]=1; if(out[pos]!=nl[q]) fail(c,"value","core position %d holds %d, requested %d",pos,out[pos],nl[q]); pos++; }
    for(int q=0;q<n;q++){ int x=out[q]; if(x<0||x>=N) fail(c,"value","listed index %d at %d",x,q); if(got[x]) fail(c,"value","index %d listed twice",x); got[x]=1; if(!want[x]) fail(c,"value","index %d is listed but not reachable",x); if((want[x]==1)!=(q<core)) fail(c,"value","index %d on the wrong side of the core boundary",x); }
    SH->checks_total+=n+2; verify_const(c,0); op_end(c);
    /* use the list: dense submatrix and back */
    int L=n; if(L<1) { track_on=0; free(out); track_on=1; return 1; }
    { op_begin(c,"matrix2submatrix","s%d list %d",a,L); bml_matrix_t*S; LIB(S=bml_zero_matrix(dense,c->p,L,L,DM)); LIB(bml_matrix2submatrix(A->A,S,out,L)); Slot s; memset(&s,0,sizeof s); static cld nv[NMAX*NMAX]; s.v=nv; s.A=S; s.t=dense; s.p=c->p; s.N=L; s.M=L; s.id=96; for(int i=0;i<L;i++) for(int j=0;j<L;j++) ex(i*L+j,A->v[out[i]*N+out[j]],0,0); verify(c,&s); verify_const(c,0); op_end(c);
      if(CH(c,2)){ double complex al[2]; eset(al,0,c->p,roundp(3,c->p)); LIB(bml_scale_inplace(al,S)); resync(c,&s); }
      int k=pick(c,0); Slot*D=&c->s[k]; double thr=gen_thr(c,A); op_begin(c,"submatrix2matrix","-> s%d core %d of %d thr=%.17g",k,core,L,thr); allow(c,L,cap(c,D));
      EACH(e,N) ex(e,D->v[e],0,0); for(int i=0;i<core;i++){ for(int j=0;j<N;j++) ex(out[i]*N+j,0,0,0); for(int j=0;j<L;j++){ cld x=nv[i*L+j]; ld z=is_cplx(c->p)?1e-6L:0; ex(out[i]*N+out[j],cab(x)<=thr*(1-z)?0:x,0,(cab(x)>thr*(1-z)&&cab(x)<=thr*(1+z))?thr*2:0); } }
      LIB(bml_submatrix2matrix(S,D->A,out,L,core,thr)); verify(c,D); verify_const(c,MASK(k)); LIB(bml_deallocate(&S)); op_end(c); }
    track_on=0; free(out); track_on=1; return 1; }
static int op_adjacency(Ctx*c){ if(c->t!=ellpack) return 0; int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; int base=CH(c,2); op_begin(c,"adjacency","s%d base=%d",a,base); upat(c,A,PA); int off=0; for(int i=0;i<N;i++) for(int j=0;j<N;j++) off+=(i!=j)&&PA[i*N+j];
    track_on=0; int*x=malloc(sizeof(int)*(N+1)),*ad=malloc(sizeof(int)*(off>0?off:1)); track_on=1; LIB(bml_adjacency(A->A,x,ad,base));
    if(x[0]!=base) fail(c,"value","first row offset is %d with base %d",x[0],base); for(int i=0;i<N;i++){ if(x[i+1]<x[i]) fail(c,"value","row offsets decrease at %d",i); int n=x[i+1]-x[i]; if(x[i+1]-base>off) fail(c,"value","row offset %d exceeds the %d entries",x[i+1]-base,off); unsigned char got[NMAX]; memset(got,0,N); for(int q=0;q<n;q++){ int j=ad[x[i]-base+q]-base; if(j<0||j>=N) fail(c,"value","row %d lists column %d",i,j); if(got[j]) fail(c,"value","row %d lists column %d twice",i,j); got[j]=1; if(!PA[i*N+j]||j==i) fail(c,"value","row %d lists column %d which is not a stored off-diagonal element",i,j); }
        for(int j=0;j<N;j++) if(j!=i&&A->v[i*N+j]!=0&&!got[j]) fail(c,"value","row %d does not list column %d",i,j); }
    SH->checks_total+=N; verify_const(c,0); op_end(c); track_on=0; free(x); free(ad); track_on=1; return 1; }
static int op_adjacency_group(Ctx*c){ if(c->t!=ellpack) return 0; int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; int base=CH(c,2),nn=rint_(&c->r,1,N); int p[NMAX]; for(int i=0;i<N;i++)p[i]=i; for(int i=N-1;i>0;i--){int j=rint_(&c->r,0,i);int x=p[i];p[i]=p[j];p[j]=x;} int h[NMAX]; for(int i=0;i<nn;i++) h[i]=p[i]+1; op_begin(c,"adjacency_group","s%d nodes=%d base=%d",a,nn,base); upat(c,A,PA); int off=0; for(int i=0;i<nn;i++) for(int j=0;j<nn;j++) off+=PA[p[i]*N+p[j]];
    track_on=0; int*x=malloc(sizeof(int)*(nn+1)),*ad=malloc(sizeof(int)*(off>0?off:1)); track_on=1; LIB(bml_adjacency_group(A->A,h,nn,x,ad,base));
    if(x[0]!=base) fail(c,"value","first offset is %d with base %d",x[0],base); for(int i=0;i<nn;i++){ int n=x[i+1]-x[i]; if(n<0||x[i+1]-base>off) fail(c,"value","offsets wrong at %d",i); unsigned char got[NMAX]; memset(got,0,N); for(int q=0;q<n;q++){ int j=ad[x[i]-base+q]-base; if(j<0||j>=nn) fail(c,"value","node %d lists %d",i,j); if(got[j]) fail(c,"value","node %d lists %d twice",i,j); got[j]=1; if(!PA[p[i]*N+p[j]]) fail(c,"value","node %d lists %d which is not adjacent",i,j); } for(int j=0;j<nn;j++) if(j!=i&&A->v[p[i]*N+p[j]]!=0&&!got[j]) fail(c,"value","node %d does not list adjacent node %d",i,j); }
    SH->checks_total+=nn; verify_const(c,0); op_end(c); track_on=0; free(x); free(ad); track_on=1; return 1; }
static int op_group_matrix(Ctx*c){ if(c->t!=ellpack) return 0; int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; int ng=rint_(&c->r,1,N); int h[NMAX+1],g[NMAX]; unsigned char cut[NMAX]; memset(cut,0,N); cut[0]=1; for(int n=1;n<ng;){ int j=rint_(&c->r,1,N-1); if(!cut[j]){cut[j]=1;n++;} } int q=0; for(int i=0;i<N;i++){ if(cut[i]) h[q++]=i+1; g[i]=q-1; } h[ng]=N+1; double thr=gen_thr(c,A);
    op_begin(c,"group_matrix","s%d groups=%d thr=%.17g",a,ng,thr); bml_matrix_t*B; LIB(B=bml_group_matrix(A->A,h,ng,thr)); Slot s; memset(&s,0,sizeof s); static cld nv[NMAX*NMAX]; s.v=nv; s.A=B; s.t=ellpack; s.p=c->p; s.N=ng; s.M=ng; s.id=95; observe(c,&s,nv,NULL); upat(c,A,PA);
    ld z=is_cplx(c->p)?1e-6L:0; memset(PB,0,ng*ng); memset(PC,0,ng*ng); for(int i=0;i<N;i++) for(int j=0;j<N;j++){ ld m=cab(A->v[i*N+j]); if(m>thr*(1+z)) PB[g[i]*ng+g[j]]=1; if(m>thr*(1-z)||(cab(A->v[j*N+i])>thr*(1-z))) PC[g[i]*ng+g[j]]=1; if(A->v[i*N+j]!=0&&cab(A->v[j*N+i])>thr*(1+z)) PB[g[i]*ng+g[j]]=1; }
    for(int i=0;i<ng;i++) for(int j=0;j<ng;j++){ int on=nv[i*ng+j]!=0; if(i==j){ if(!on) fail(c,"value","group %d has no self element",i); continue; } if(on&&nv[i*ng+j]!=1) fail(c,"value","group element (%d,%d) is %.6Lg",i,j,creall(nv[i*ng+j])); if(PB[i*ng+j]&&!on) fail(c,"value","groups %d and %d are joined but not marked",i,j); if(!PC[i*ng+j]&&on) fail(c,"value","groups %d and %d are marked but not joined",i,j); }
    verify_const(c,0); LIB(bml_deallocate(&B)); op_end(c); return 1; }

/* ================= files ================= */
static int check_mtx(Ctx*c,Slot*A,const char*fn){ FILE*f=fopen(fn,"r"); if(!f) fail(c,"value","no file written"); int N=A->N; char l[512]; if(!fgets(l,512,f)) fail(c,"value","empty file"); char h[5][64]; if(sscanf(l,"%63s %63s %63s %63s %63s",h[0],h[1],h[2],h[3],h[4])!=5||strncmp(h[0],"%%MatrixMarket",14)||strcmp(h[1],"matrix")||strcmp(h[2],"coordinate")||strcmp(h[3],is_cplx(A->p)?"complex":"real")||strcmp(h[4],"general")) fail(c,"value","bad header '%s'",l); 
    int n1,n2,cnt; for(;;){ if(!fgets(l,512,f)) fail(c,"value","no size line"); if(l[0]!='%') break; } if(sscanf(l,"%d %d %d",&n1,&n2,&cnt)!=3||n1!=N||n2!=N) fail(c,"value","size line '%s'",l); int n=0; static unsigned char seen[NMAX*NMAX]; memset(seen,0,sizeof seen);
    while(fgets(l,512,f)){ int i,j,cx=is_cplx(A->p); double a,b=0; char junk[4]; if(l[0]=='\n') continue; if(cx?sscanf(l,"%d %d %lf %lf %3s",&i,&j,&a,&b,junk)!=4:sscanf(l,"%d %d %lf %3s",&i,&j,&a,junk)!=3) fail(c,"value","bad entry line '%s'",l); if(i<1||j<1||i>N||j>N) fail(c,"value","entry index (%d,%d) out of range",i,j); if(seen[(i-1)*N+j-1]) fail(c,"value","entry (%d,%d) written twice",i,j); seen[(i-1)*N+j-1]=1; ld want=creall(A->v[(i-1)*N+j-1]); ld wi=cimagl(A->v[(i-1)*N+j-1]); if(fabsl((ld)a-want)>1e-14L*fabsl(want)+1e-307L||fabsl((ld)b-wi)>1e-14L*fabsl(wi)+1e-307L) fail(c,"value","entry (%d,%d) written as %.17g, held %.17Lg",i,j,a,want); n++; }
    if(n!=cnt) fail(c,"value","header announces %d entries, file has %d",cnt,n); EACH(e,N) if(A->v[e]!=0&&!seen[e]) fail(c,"value","element (%d,%d) not written",e/N,e%N); fclose(f); return n; }
static int op_file(Ctx*c){ int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; char fn[300]; snprintf(fn,sizeof fn,"%s/m%d.mtx",c->tmpdir,c->dist?(int)(c->no*100+c->fileno++):(int)getpid()); op_begin(c,"write","s%d",a); if(!c->dist) unlink(fn); LIB(bml_write_bml_matrix(A->A,fn)); verify_const(c,0); track_on=0; check_mtx(c,A,fn); track_on=1; op_end(c);
    int k=CH(c,2)?pick(c,MASK(a)):-1; if(k<0){ k=freeslot(c,MASK(a)); op_begin(c,"zero","s%d",k); bml_matrix_t*Z; LIB(Z=bml_zero_matrix(c->t,c->p,N,c->M,DM)); adopt(c,k,Z,c->t,c->p,N,c->M); resync(c,&c->s[k]); op_end(c); }
    op_begin(c,"read","s%d from the file of s%d",k,a); if(c->s[k].t==ellpack){ upat(c,A,PA); allow(c,maxrow(PA,units(c,A)),cap(c,&c->s[k])); } EACH(e,N) ex(e,A->v[e],(c->p==single_real||c->p==single_complex)?2e-7L*cab(A->v[e])+2e-45L:6e-15L*cab(A->v[e]),0); LIB(bml_read_bml_matrix(c->s[k].A,fn)); verify(c,&c->s[k]); verify_const(c,MASK(k)); op_end(c);
    if(!c->dist&&CH(c,3)){ /* the file holds nothing but the matrix: any format reads it */
        static const bml_matrix_type_t ty[]={dense,ellpack,csr,ellblock}; bml_matrix_type_t t=ty[rint_(&c->r,0,3)]; bml_matrix_precision_t p=c->p; if(CH(c,2)) p=p==single_real?double_real:p==double_real?single_real:p==single_complex?double_complex:single_complex; if(p!=c->p&&c->vmode!=0) p=c->p;
        op_begin(c,"read","%s/%s from the file of s%d (%s)",tname(t),pname(p),a,tname(c->t)); bml_matrix_t*B; LIB(B=bml_zero_matrix(t,p,N,N,DM)); Slot n; memset(&n,0,sizeof n); static cld nv[NMAX*NMAX]; n.v=nv; n.A=B; n.t=t; n.p=p; n.N=N; n.M=N; n.id=96;
        int f=c->p==single_real||c->p==single_complex||p==single_real||p==single_complex; LIB(bml_read_bml_matrix(B,fn)); EACH(e,N) ex(e,A->v[e],f?2e-7L*cab(A->v[e])+2e-45L:6e-15L*cab(A->v[e]),0); verify(c,&n); verify_const(c,0); readback(c,&n); LIB(bml_deallocate(&B)); op_end(c); }
    if(!c->dist||c->rank==0) unlink(fn); return 1; }

/* a damaged or foreign file: any outcome but a well-formed matrix or a reported error is a violation */
static char HB[70000];
/* what no reader may accept: missing elements, another size, an index outside the matrix; only asked of files made of whole numbers (NULL: accepting or refusing are both fine) */
static const char*must_refuse(const char*b,int n,int N,int cplx){ static char why[120]; static const char*hd[]={"%%MatrixMarket matrix coordinate real general","%%MatrixMarket matrix coordinate complex general"}; int p=0,k=-1,e=0; if(n==0) return "it is empty"; int first=1,comment=0;
    while(p<n){ char l[128]; int q=0; while(p<n&&b[p]!='\n'){ if(q<126) l[q++]=b[p]; p++; } p++; l[q]=0; if(q&&l[q-1]=='\r') l[--q]=0;
        if(first){ if(strcmp(l,hd[cplx])) return NULL; first=0; continue; }
        if(k<0){ if(l[0]=='%'){ comment++; continue; } int n1,n2; if(sscanf(l,"%d %d %d",&n1,&n2,&k)!=3) return "its size line is not complete"; if(n1!=N||n2!=N||k<0){ snprintf(why,sizeof why,"it is the file of a %d x %d matrix of %d elements",n1,n2,k); return why; } continue; }
        if(e==k) return NULL; int i,j; double x,y; char junk[4]; int g=cplx?sscanf(l,"%d %d %lf %lf %3s",&i,&j,&x,&y,junk):sscanf(l,"%d %d %lf %3s",&i,&j,&x,junk); if(g<2) break; if(i<1||i>N||j<1||j>N){ snprintf(why,sizeof why,"it holds element (%d,%d)",i,j); return why; } if(g<(cplx?4:3)) break; if(g>(cplx?4:3)) return NULL; e++; }
    if(k<0) return "it ends before the size line"; if(e<k&&p>=n){ snprintf(why,sizeof why,"it announces %d elements and holds %d",k,e); return why; } return NULL; }
static int op_hostile_file(Ctx*c){ int plain=1; int a=pick(c,0); if(a<0) return 0; Slot*A=&c->s[a]; int N=A->N; char fn[300]; snprintf(fn,sizeof fn,"%s/h%d.mtx",c->tmpdir,(int)getpid()); 
    int cplx=is_cplx(c->p),nl=0; static char L[600][96]; static char BIG[40000]; int big=0;
    static const char*heads[]={"%%MatrixMarket matrix coordinate real general","%%MatrixMarket matrix coordinate complex general","%%MatrixMarket matrix coordinate real symmetric","%%MatrixMarket matrix array real general","%%MatrixMarket vector coordinate integer general","%%MatrixMarket","%MatrixMarket matrix coordinate real general","%%matrixmarket MATRIX Coordinate Real General","", "%%MatrixMarket matrix coordinate pattern general","%%MatrixMarket matrix coordinate real hermitian"};
    int nz=0; for(int e=0;e<N*N;e++) nz+=A->v[e]!=0;
    snprintf(L[nl++],96,"%s",heads[CH(c,6)?rint_(&c->r,0,10):cplx]); if(CH(c,4)) snprintf(L[nl++],96,"%% comment"); int cl=nl; snprintf(L[nl++],96,"%d %d %d",N,N,nz>480?480:nz);
    for(int e=0;e<N*N&&nl<500;e++) if(A->v[e]!=0){ if(cplx) snprintf(L[nl++],96,"%d %d %.16g %.16g",e/N+1,e%N+1,(double)creall(A->v[e]),(double)cimagl(A->v[e])); else snprintf(L[nl++],96,"%d %d %.16g",e/N+1,e%N+1,(double)creall(A->v[e])); }
    char desc[600]; int dn=0; desc[0]=0; int kind=rint_(&c->r,0,11); int muts=kind==0?0:rint_(&c->r,1,3);
#define D(...) do{ if(dn<500) dn+=snprintf(desc+dn,sizeof desc-dn,__VA_ARGS__); }while(0)
    static const char*tok[]={"0","-1","-2147483648","2147483647","4294967297","99999999999999999999","x","nan","1e999","-inf","","1.5","0x3","1e-320","+1","%"};
    for(int m=0;m<muts;m++){ int q=rint_(&c->r,0,13); int li=rint_(&c->r,0,nl-1); char t[2200]; int i,j; double x,y; if(q>3&&q!=7&&(q!=5||li<=cl)) plain=0;
        switch(q){
        case 0: case 1: case 2: { if(nl<=cl+1) break; li=rint_(&c->r,cl+1,nl-1); x=1.5;y=0; i=j=1; sscanf(L[li],"%d %d %lf %lf",&i,&j,&x,&y); int w=rint_(&c->r,0,5); int bad=w==0?0:w==1?N+1:w==2?-rint_(&c->r,1,N):w==3?N+rint_(&c->r,2,3000):w==4?2147483647:rint_(&c->r,1,N); if(q==0) i=bad; else j=bad; if(q==2) i=bad; snprintf(L[li],96,"%d %d %.9g %.9g",i,j,x,y); D("line %d index %d %d; ",li,i,j); break; }
        case 3: { int w=rint_(&c->r,0,7); int n1=N,n2=N,k=nz; if(w==0) k=nz+rint_(&c->r,1,5); if(w==1) k=nz>0?rint_(&c->r,0,nz-1):-1; if(w==2) k=-1; if(w==3) k=2147483647; if(w==4) n1=N+1; if(w==5) n2=N-1; if(w==6) n1=n2=2147483647; if(w==7) n1=n2=0; snprintf(L[cl],96,"%d %d %d",n1,n2,k); D("counts %d %d %d; ",n1,n2,k); break; }
        case 4: { const char*T=tok[rint_(&c->r,0,15)]; snprintf(t,sizeof t,"%s",L[li]); char*f[6]; int nf=0; for(char*z=strtok(t," ");z&&nf<6;z=strtok(NULL," ")) f[nf++]=z; if(!nf) break; int w=rint_(&c->r,0,nf-1); f[w]=(char*)T; char o[200]; int on=0; o[0]=0; for(int z=0;z<nf;z++) on+=snprintf(o+on,sizeof o-on,"%s%.40s",z?" ":"",f[z]); snprintf(L[li],96,"%s",o); D("line %d token %d '%s'; ",li,w,T); break; }
        case 5: memmove(L[li],L[li+1],sizeof L[0]*(nl-li-1)); nl--; if(li<cl) cl--; if(nl<1) { nl=1; L[0][0]=0; } if(cl>=nl) cl=nl-1; D("line %d deleted; ",li); break;
        case 6: { int k=rint_(&c->r,1,8); for(int z=0;z<k&&nl<590;z++){ memcpy(L[nl],L[rint_(&c->r,0,nl-1)],96); nl++; } D("%d lines repeated; ",k); break; }
        case 7: { int k=nl>cl+1?rint_(&c->r,cl,nl-1):0; nl=k+1; D("cut after line %d; ",k); break; }
        case 8: { int k=strlen(L[li]); if(k){ int z=rint_(&c->r,0,k-1); L[li][z]=(char)rint_(&c->r,1,255); D("line %d byte %d changed; ",li,z);} break; }
        case 9: { int k=strlen(L[li]); if(k){ L[li][rint_(&c->r,0,k-1)]=0; D("line %d shortened; ",li);} break; }
        case 10: if(nl<590){ memmove(L[li+1],L[li],sizeof L[0]*(nl-li)); nl++; snprintf(L[li],96,"%s",CH(c,2)?"":CH(c,2)?"% late comment":"1 1 1 1 1 1"); if(li<=cl) cl++; D("line %d inserted; ",li); } break;
        case 11: big=rint_(&c->r,300,30000); D("overlong token of %d bytes on line %d; ",big,li); snprintf(L[li],96,"@BIG%d",CH(c,3)); break;
        case 12: if(nl>cl+1){ li=rint_(&c->r,cl+1,nl-1); snprintf(L[li],96,"%d %d",rint_(&c->r,1,N),rint_(&c->r,1,N)); D("line %d without value; ",li); } break;
        case 13: if(CH(c,2)&&nl<540){ for(int z=0;z<40;z++) snprintf(L[nl++],96,"%d %d %d %d",rint_(&c->r,1,N),rint_(&c->r,1,N),rint_(&c->r,-3,3),1); int k=nl-cl-1; snprintf(L[cl],96,"%d %d %d",N,N,k); D("40 more entries, some duplicate; "); } break;
        } }
    int n=0; const char*eol=CH(c,8)?"\r\n":"\n"; for(int l=0;l<nl&&n<60000-big;l++){ if(!strncmp(L[l],"@BIG",4)){ for(int z=0;z<big;z++) HB[n++]=L[l][4]=='1'?'1':"%a 9"[l==0?1:rint_(&c->r,0,3)]; n+=sprintf(HB+n,"%s",eol); } else n+=sprintf(HB+n,"%s%s",L[l],eol); }
    int how=rint_(&c->r,0,19); if(how==0){ n=0; D("empty; "); } if(how==1&&n){ n=rint_(&c->r,0,n-1); D("truncated to %d bytes; ",n); } if(how==2){ n=rint_(&c->r,1,900); for(int z=0;z<n;z++) HB[z]=(char)rint_(&c->r,0,255); D("%d random bytes; ",n); } if(how==3&&n){ int k=rint_(&c->r,1,12); for(int z=0;z<k;z++) HB[rint_(&c->r,0,n-1)]=(char)rint_(&c->r,0,255); D("%d random byte changes; ",k); } if(how==4&&n){ HB[n-1]=' '; D("no final newline; "); }
    unlink(fn); rmdir(fn); if(how==5){ D("missing file; "); } else if(how==6){ mkdir(fn,0700); D("a directory; "); } else { FILE*f=fopen(fn,"wb"); fwrite(HB,1,n,f); fclose(f); }
    int k=CH(c,2)?pick(c,0):-1; if(k<0){ k=freeslot(c,MASK(a)); op_begin(c,"zero","s%d",k); bml_matrix_t*Z; LIB(Z=bml_zero_matrix(c->t,c->p,N,c->M,DM)); adopt(c,k,Z,c->t,c->p,N,c->M); resync(c,&c->s[k]); op_end(c); }
    op_begin(c,"hostile_file","s%d <- %.500s",k,desc); SH->refuse_ok=1; if(nz&&(muts||how<=6)){ uint64_t hh=A->hash; for(int z=0;z<n;z++) hh=(hh^(unsigned char)HB[z])*1099511628211ull; key(c,(uint32_t)(hh^(hh>>32))); } Slot*K=&c->s[k]; LIB(bml_read_bml_matrix(K->A,fn));
    { const char*w=how==5?"there is no such file":how==6?"it is a directory":(plain||how==0)&&how!=2&&how!=3?must_refuse(HB,n,N,cplx):NULL; if(w) fail(c,"value","the file was accepted although %s",w); }
    resync(c,K); verify_const(c,MASK(k)); SH->nhostile_ok++;
    { void*d; LIB(d=bml_export_to_dense(K->A,dense_row_major)); LIB(bml_free_memory(d)); for(int i=0;i<N;i++){ LIB(d=bml_get_row(K->A,i)); LIB(bml_free_memory(d)); } bml_matrix_t*T; LIB(T=bml_transpose_new(K->A)); LIB(bml_deallocate(&T)); }
    SH->refuse_ok=0; LIB(bml_clear(K->A)); resync(c,K); for(int e=0;e<N*N;e++) if(K->v[e]!=0) fail(c,"value","not zero after clear");
    unlink(fn); rmdir(fn); op_end(c); return 1; }

/* memory helpers: a set of live blocks with known bytes, re-checked after every call */
typedef struct { unsigned char*p; size_t n; unsigned seed; int zero; } Blk;
static unsigned char pat(unsigned s,size_t i){ return (unsigned char)((s*2654435761u+(unsigned)i*40503u)>>11); }
static size_t gsize(Ctx*c){ int k=rint_(&c->r,0,9); size_t b; switch(k){ case 0: return rint_(&c->r,1,9); case 1: return rint_(&c->r,1,200); case 2: b=64*rint_(&c->r,1,40); break; case 3: b=4096*rint_(&c->r,1,6); break; case 4: b=(size_t)1<<rint_(&c->r,3,19); break; case 5: return rint_(&c->r,1,3000); case 6: return (size_t)rint_(&c->r,1,90)*8; case 7: return (size_t)rint_(&c->r,1,90)*16; case 8: return rint_(&c->r,100000,700000); default: return rint_(&c->r,1,20000); } b+=rint_(&c->r,-2,2); return b<1?1:b; }
static int op_memory(Ctx*c){ enum{NB_=10}; Blk B[NB_]; memset(B,0,sizeof B); int steps=rint_(&c->r,6,26); op_begin(c,"memory","%d calls",steps);
    for(int q=0;q<steps;q++){ int k=rint_(&c->r,0,NB_-1); Blk*b=&B[k]; char*what="?";
        if(!b->p){ size_t n=gsize(c); int z=CH(c,3)?0:1; if(z) { LIB(b->p=bml_allocate_memory(n)); what="allocate"; } else { LIB(b->p=bml_noinit_allocate_memory(n)); what="noinit"; } b->n=n; SH->hlen+=snprintf(SH->history+SH->hlen,SH->hlen<20000?60:0,"  %s(%zu)\n",what,n);
            if(!b->p) fail(c,"value","%s(%zu) returned null",what,n); if((uintptr_t)b->p%16) fail(c,"value","%s(%zu) is not aligned",what,n);
#ifdef BML_USE_POSIX_MEMALIGN
            if((uintptr_t)b->p%MALLOC_ALIGNMENT) fail(c,"value","%s(%zu) is not aligned to %d bytes",what,n,MALLOC_ALIGNMENT);
#endif
            if(z) for(size_t i=0;i<n;i++) if(b->p[i]) fail(c,"value","byte %zu of a fresh zeroed block of %zu bytes is %d",i,n,b->p[i]);
            for(int j=0;j<NB_;j++) if(j!=k&&B[j].p&&b->p<B[j].p+B[j].n&&B[j].p<b->p+n) fail(c,"value","blocks overlap"); }
        else if(CH(c,2)){ size_t o=b->n,n=CH(c,4)?b->n:CH(c,3)?b->n*2:gsize(c); SH->hlen+=snprintf(SH->history+SH->hlen,SH->hlen<20000?60:0,"  reallocate(%zu -> %zu)\n",o,n); LIB(b->p=bml_reallocate_memory(b->p,n)); if(!b->p) fail(c,"value","reallocation returned null"); b->n=n; for(size_t i=0;i<(o<n?o:n);i++) if(b->p[i]!=pat(b->seed,i)) fail(c,"value","reallocation from %zu to %zu bytes changed byte %zu",o,n,i);
            for(int j=0;j<NB_;j++) if(j!=k&&B[j].p&&b->p<B[j].p+B[j].n&&B[j].p<b->p+n) fail(c,"value","blocks overlap"); }
        else if(CH(c,2)){ SH->hlen+=snprintf(SH->history+SH->hlen,SH->hlen<20000?60:0,"  free(%zu)\n",b->n); LIB(bml_free_memory(b->p)); b->p=NULL; }
        else { SH->hlen+=snprintf(SH->history+SH->hlen,SH->hlen<20000?60:0,"  free_ptr(%zu)\n",b->n); void*v=b->p; LIB(bml_free_ptr(&v)); b->p=NULL; }
        if(b->p){ b->seed=(unsigned)rnd64(&c->r); for(size_t i=0;i<b->n;i++) b->p[i]=pat(b->seed,i); }
        for(int j=0;j<NB_;j++) if(B[j].p) for(size_t i=0;i<B[j].n;i++) if(B[j].p[i]!=pat(B[j].seed,i)) fail(c,"value","byte %zu of an untouched block of %zu bytes changed during %s",i,B[j].n,what);
        SH->checks_total++; }
    for(int j=0;j<NB_;j++) if(B[j].p) LIB(bml_free_memory(B[j].p));
    if(CH(c,6)){ op_begin(c,"memory","a request that cannot be met"); SH->refuse_ok=1; void*v; size_t n=((size_t)1<<62)+gsize(c); if(CH(c,2)) LIB(v=bml_allocate_memory(n)); else if(CH(c,2)) LIB(v=bml_noinit_allocate_memory(n)); else { LIB(v=bml_noinit_allocate_memory(8)); key(c,(uint32_t)rnd64(&c->r)); LIB(v=bml_reallocate_memory(v,n)); } fail(c,"value","a request for %zu bytes returned %p instead of being reported",n,v); }
    op_end(c); return 1; }

/* blocks of more than 2 and 4 GiB: few bytes are touched except where the library has to clear the block */
static void bigprobe(Ctx*c,volatile unsigned char*p,size_t n,int zero,const char*what){ if(!p) fail(c,"value","%s(%zu) returned null",what,n); size_t at[]={0,1,4095,4096,n/4,n/2-1,n/2,n/2+1,((size_t)1<<31)-2,n-4097,n-2,n-1}; int k=sizeof at/sizeof*at; for(int i=0;i<k;i++) if(at[i]<n){ if(zero&&p[at[i]]) fail(c,"value","byte %zu of a fresh zeroed block of %zu bytes is %d",at[i],n,p[at[i]]); } for(int i=0;i<k;i++) if(at[i]<n) p[at[i]]=(unsigned char)(17*i+3+n); for(int i=0;i<k;i++) if(at[i]<n){ unsigned char w=(unsigned char)(17*i+3+n); int j; for(j=i+1;j<k;j++) if(at[j]==at[i]) break; if(j==k&&p[at[i]]!=w) fail(c,"value","byte %zu of a block of %zu bytes does not keep its value",at[i],n); } }
static int op_big_memory(Ctx*c){ size_t n=((size_t)1<<31)+rint_(&c->r,-3,9),m=((size_t)1<<32)+rint_(&c->r,1,60); void*v; int k=rint_(&c->r,0,2);
    op_begin(c,"big_memory","%s of %zu bytes",k==0?"zeroed":k==1?"uninitialised":"reallocated",k==0?n:m);
    if(k==0){ LIB(v=bml_allocate_memory(n)); bigprobe(c,v,n,1,"allocate"); }
    else if(k==1){ LIB(v=bml_noinit_allocate_memory(m)); bigprobe(c,v,m,0,"noinit"); }
    else { unsigned char*q; LIB(q=bml_noinit_allocate_memory(70)); for(int i=0;i<70;i++) q[i]=pat(5,i); LIB(v=bml_reallocate_memory(q,m)); q=v; for(int i=0;q&&i<70;i++) if(q[i]!=pat(5,i)) fail(c,"value","reallocation from 70 to %zu bytes changed byte %d",m,i); bigprobe(c,v,m,0,"reallocate"); LIB(v=bml_reallocate_memory(v,40)); q=v; if(!q||q[0]!=(unsigned char)(3+m)) fail(c,"value","reallocation from %zu to 40 bytes changed byte 0",m); }
    LIB(bml_free_memory(v)); SH->checks_total++; op_end(c); return 1; }

/* the library's generator draws the same matrix for the same seed, whatever the team size */
static int op_random_repeat(Ctx*c){ int N=c->N,M=rint_(&c->r,1,N); unsigned sd=(unsigned)rnd64(&c->r); int bd=CH(c,2); op_begin(c,"random_repeat","%s M=%d seed=%u",bd?"banded":"random",M,sd); void*A,*B; if(c->t==ellblock) M=c->M;
    if(bd&&c->t!=dense&&M<1) M=1; srand(sd); omp_set_num_threads(1); if(bd) LIB(A=bml_banded_matrix(c->t,c->p,N,M,DM)); else LIB(A=bml_random_matrix(c->t,c->p,N,c->M,DM));
    srand(sd); omp_set_num_threads(c->threads); if(bd) LIB(B=bml_banded_matrix(c->t,c->p,N,M,DM)); else LIB(B=bml_random_matrix(c->t,c->p,N,c->M,DM));
    void*a,*b; LIB(a=bml_export_to_dense(A,dense_row_major)); LIB(b=bml_export_to_dense(B,dense_row_major)); for(int e=0;e<N*N;e++) if(eget(a,e,c->p)!=eget(b,e,c->p)) fail(c,"value","element (%d,%d) is %.12Lg with one thread and %.12Lg with %d",e/N,e%N,creall(eget(a,e,c->p)),creall(eget(b,e,c->p)),c->threads);
    LIB(bml_free_memory(a)); LIB(bml_free_memory(b)); LIB(bml_deallocate(&A)); LIB(bml_deallocate(&B)); op_end(c); return 1; }
#ifdef MPISIM
int op_exchange(Ctx*),op_bcast(Ctx*),op_shift(Ctx*),op_reduce(Ctx*),op_partition(Ctx*),op_gather(Ctx*),op_partial(Ctx*);
#define MPIOPS {"exchange",op_exchange},{"bcast",op_bcast},{"shift",op_shift},{"reduce",op_reduce},{"partition",op_partition},{"gather",op_gather},{"partial",op_partial},
#else
#define MPIOPS
#endif
#ifdef EXTRA
int op_gemm(Ctx*),op_misuse(Ctx*),op_print(Ctx*),op_log(Ctx*);
#define EXTRAOPS {"gemm",op_gemm},{"misuse",op_misuse},{"print",op_print},{"log",op_log},
#else
#define EXTRAOPS
#endif
const Op OPS[]={ MPIOPS EXTRAOPS {"import",op_import},{"export",op_export},{"zero",op_zero},{"identity",op_identity},{"banded",op_banded},{"random",op_random},{"noinit",op_noinit},{"clear",op_clear},{"block_matrix",op_block_matrix},{"drop",op_drop},{"introspect",op_introspect},
 {"set_element",op_set_element},{"set_element_new",op_set_element_new},{"set_row",op_set_row},{"set_diagonal",op_set_diagonal},{"getters",op_getters},
 {"copy_new",op_copy_new},{"copy",op_copy},{"convert",op_convert},{"domain",op_domain},{"add",op_add},{"add_norm",op_add_norm},{"add_identity",op_add_identity},{"scale_add_identity",op_scale_add_identity},
 {"multiply",op_multiply},{"multiply_x2",op_multiply_x2},{"multiply_AB",op_multiply_AB},{"multiply_adjust",op_multiply_adjust},{"element_multiply",op_element_multiply},
 {"scale_new",op_scale_new},{"scale",op_scale},{"scale_inplace",op_scale_inplace},{"threshold",op_threshold},{"threshold_new",op_threshold_new},
 {"transpose",op_transpose},{"transpose_new",op_transpose_new},{"transpose_triangle",op_transpose_triangle},{"adjungate_triangle",op_adjungate},{"reorder",op_reorder},
 {"trace",op_trace},{"trace_mult",op_trace_mult},{"sum_squares",op_sum_squares},{"sum_squares2",op_sum_squares2},{"sum_AB",op_sum_AB},{"sum_squares_submatrix",op_ss_submatrix},{"fnorm",op_fnorm},{"fnorm2",op_fnorm2},
 {"gershgorin",op_gershgorin},{"gershgorin_partial",op_gershgorin_partial},{"normalize",op_normalize},{"accumulate_offdiag",op_offdiag},{"diagonalize",op_diagonalize},{"inverse",op_inverse},{"inverse_singular",op_inverse_singular},
 {"extract_submatrix",op_extract},{"submatrix_index",op_submatrix_index},{"adjacency",op_adjacency},{"adjacency_group",op_adjacency_group},{"group_matrix",op_group_matrix},{"file",op_file},{"hostile_file",op_hostile_file},{"memory",op_memory},{"big_memory",op_big_memory},{"random_repeat",op_random_repeat},
 /* names reported by compound operations */
 {"deallocate",NULL},{"init",NULL},{"shutdown",NULL},{"send",NULL},{"recv",NULL},{"irecv",NULL},{"recv_matrix",NULL},{"sum_reduce",NULL},{"min_reduce",NULL},{"max_reduce",NULL},{"assign_submatrix",NULL},{"matrix2submatrix",NULL},{"submatrix2matrix",NULL},{"submatrix_index_graph",NULL},{"write",NULL},{"read",NULL} };
extern const int NOPS;
static const char *CONF[]={"set_element","set_row","set_diagonal","getters","export","introspect","clear","copy_new","scale_inplace","threshold","trace","sum_squares","fnorm","gershgorin","normalize","add_identity","scale_add_identity","threshold_new","scale_new","transpose_new","transpose","add","trace_mult","sum_AB","sum_squares2","copy","convert","inverse","extract_submatrix","add_norm"};
int is_own(const char*);
int confined(Ctx*c,const char*nm){ if(!nm){ int want=CH(c,2); for(int q=0;q<30;q++){ nm=CONF[rint_(&c->r,0,(int)(sizeof CONF/sizeof*CONF)-1)]; if(!want||is_own(nm)) break; } } for(int i=0;i<NOPS;i++) if(!strcmp(OPS[i].name,nm)) return OPS[i].f(c); return 0; }
const int NOPS=sizeof OPS/sizeof OPS[0];
