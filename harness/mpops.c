/* Operations over several ranks: observation of distributed matrices, exchanges of whole matrices, reductions, row partitions. */
#include "mon.h"
#include "mpi.h"
#include "mpisim.h"
#include "bml_types_distributed2d.h"
#include "bml_parallel.h"
#include "bml_init.h"
#include "bml_shutdown.h"
extern int slot_reserved; extern Ctx *SIMC; extern bml_distribution_mode_t DM;
static MPI_Comm HC;                      /* the harness's own communicator */
#define EACH(e,N) for(int e=0;e<(N)*(N);e++)
#define MAXX 24
typedef struct { uint64_t h; int st[NMAX]; } Meta;
static cld LV[NMAX*NMAX]; static cld *GV; static Meta LM, GM[SIM_MAXR]; static size_t GVn;
static void *hal(size_t n){ track_on=0; void*p=malloc(n); track_on=1; return p; } static void hfree(void*p){ track_on=0; free(p); track_on=1; }

static uint64_t obs(Ctx *c,Slot *s,cld *out,int *stored){
    int p=c->dist,N=s->N,n=N/p,R=p*p;
    if(bml_get_type(s->A)!=distributed2d) fail(c,"meta","type is %s, expected distributed2d",tname(bml_get_type(s->A)));
    if(bml_get_precision(s->A)!=s->p) fail(c,"meta","precision is %s, expected %s",pname(bml_get_precision(s->A)),pname(s->p));
    if(bml_get_N(s->A)!=N) fail(c,"meta","N is %d, expected %d",bml_get_N(s->A),N);
    bml_matrix_t *l=bml_get_local_matrix(s->A); if(!l) fail(c,"meta","no local block");
    Slot L=*s; L.A=l; L.N=n; Ctx D=*c; D.dist=0; memset(&LM,0,sizeof LM); LM.h=observe_local(&D,&L,LV,LM.st);
    size_t need=sizeof(cld)*n*n*R; if(need>GVn){ hfree(GV); GV=hal(need); GVn=need; }
    MPI_Allgather(LV,sizeof(cld)*n*n,MPI_BYTE,GV,sizeof(cld)*n*n,MPI_BYTE,HC); size_t mb=offsetof(Meta,st)+sizeof(int)*n; static char mbuf[SIM_MAXR*sizeof(Meta)]; MPI_Allgather(&LM,mb,MPI_BYTE,mbuf,mb,MPI_BYTE,HC);
    uint64_t h=14695981039346656037ull; if(stored) memset(stored,0,sizeof(int)*N);
    for(int k=0;k<R;k++){ Meta m; memcpy(&m,mbuf+k*mb,mb); h=(h^m.h)*1099511628211ull; int bi=k/p,bj=k%p; for(int i=0;i<n;i++){ if(stored) stored[bi*n+i]+=m.st[i]; memcpy(out+(size_t)(bi*n+i)*N+bj*n,GV+((size_t)k*n+i)*n,sizeof(cld)*n); } }
    return h;
}
void mp_begin(Ctx *c){ op_begin(c,"init","%d ranks",c->nranks); LIB(bml_init(MPI_COMM_WORLD)); MPI_Comm_dup(MPI_COMM_WORLD,&HC); sim_mark(); dist_observe=obs; op_end(c);
    if(bml_getNRanks()!=c->nranks||bml_getMyRank()!=c->rank) fail(c,"value","library sees rank %d of %d, started as rank %d of %d",bml_getMyRank(),bml_getNRanks(),c->rank,c->nranks); }
void mp_end(Ctx *c){ op_begin(c,"shutdown","all"); LIB(bml_shutdown()); sim_finish(); op_end(c); }

/* ---------------- whole matrices between ranks ---------------- */
static Op const *find(const char*n){ for(int i=0;i<NOPS;i++) if(!strcmp(OPS[i].name,n)) return &OPS[i]; return NULL; }
static void make(Ctx *D,int steps){ static const char *st[]={"set_element","transpose","transpose_new","scale_inplace","threshold","add","copy_new","set_row","import","clear"}; find("import")->f(D); for(int q=0;q<steps;q++){ find(st[rint_(&D->r,0,9)])->f(D); } }
static int anylive(Ctx*D){ int o[MAXSLOT],n=0; for(int k=0;k<MAXSLOT;k++) if(D->s[k].live) o[n++]=k; return n?o[rint_(&D->r,0,n-1)]:-1; }
static void begin_local(Ctx*c,Ctx*D){ *D=*c; memset(D->s,0,sizeof D->s); D->local=1; D->mmode=0; D->r.s=rnd64(&c->r)^((uint64_t)(c->rank+1)*0x9E3779B97F4A7C15ull); SIMC=D; HISTQUIET=1; }
static void end_local(Ctx*c,Ctx*D){ for(int k=0;k<MAXSLOT;k++){ if(D->s[k].live) drop_slot(D,k); } SIMC=c; HISTQUIET=c->rank>0; }
static cld *ALL; static size_t ALLn;
static void publish(Ctx*c,Slot*s){ int N=s->N; size_t b=sizeof(cld)*N*N; if(b*c->nranks>ALLn){ hfree(ALL); ALL=hal(ALLn=b*c->nranks); } MPI_Allgather(s->v,b,MPI_BYTE,ALL,b,MPI_BYTE,HC); }
static void expect(Ctx*D,int k,const cld*v){ Slot*s=&D->s[k]; int N=s->N; memcpy(EXPv,v,sizeof(cld)*N*N); memset(TOLs,0,sizeof(ld)*N*N); memset(DROPs,0,sizeof(ld)*N*N); verify(D,s); }
static MPI_Comm subcomm(Ctx*c){ MPI_Comm n; int k=rint_(&c->r,0,3); uint64_t z=rnd64(&c->r); if(k==0) return MPI_COMM_NULL; int color=k==3?(int)((z>>(c->rank*2))&1):0; uint64_t kk=(z^(c->rank*0x9E3779B9ull))*0x2545F4914F6CDD1Dull; MPI_Comm_split(HC,color,k==1?c->nranks-c->rank:(int)((kk>>33)&0xffff),&n); return n; }
static int recv_into(Ctx*D,int k,int src,MPI_Comm cm,int mode){ Slot*s=&D->s[k<0?0:k];
    if(mode==0) LIB(bml_mpi_recv(s->A,src,cm)); else if(mode==1){ LIB(bml_mpi_irecv(s->A,src,cm)); LIB(bml_mpi_irecv_complete(s->A)); }
    else { bml_matrix_t*A; LIB(A=bml_mpi_recv_matrix(D->t,D->p,D->N,D->M,src,cm)); int q=new_slot_idx(D); adopt(D,q,A,D->t,D->p,D->N,D->M); if(bml_get_distribution_mode(A)!=sequential) fail(D,"meta","received matrix has distribution mode %d",bml_get_distribution_mode(A)); return q; }
    return k; }
/* a second matrix with the same storage shape, holding something else */
static int prefill(Ctx*D){ int before=0; for(int k=0;k<MAXSLOT;k++) before|=D->s[k].live<<k; find("import")->f(D); for(int k=0;k<MAXSLOT;k++) if(D->s[k].live&&!(before>>k&1)) return k; return anylive(D); }
static void use(Ctx*D){ static const char *st[]={"set_element","transpose","scale_inplace","add","multiply_AB","getters","trace","copy_new","threshold","export","set_row"}; int n=rint_(&D->r,1,3); for(int q=0;q<n;q++) find(st[rint_(&D->r,0,10)])->f(D); }
static void roomy(Ctx*D,Slot*keep){ int n=0; for(int k=0;k<MAXSLOT;k++) n+=D->s[k].live; for(int k=MAXSLOT-1;k>=0&&n>3;k--) if(D->s[k].live&&&D->s[k]!=keep){ drop_slot(D,k); n--; } }
static int my(MPI_Comm c,int*n){ int r; MPI_Comm_rank(c,&r); MPI_Comm_size(c,n); return r; }

int op_exchange(Ctx *c){ if(c->nranks<2) return 0; Ctx DD,*D=&DD; int nx=rint_(&c->r,1,MAXX/3); op_begin(c,"exchange","%d transfers",nx); begin_local(c,D); make(D,rint_(&D->r,0,4)); roomy(D,NULL);
    int a=anylive(D); Slot*A=&D->s[a]; publish(c,A); MPI_Comm sub=subcomm(c); MPI_Comm cm=sub==MPI_COMM_NULL?MPI_COMM_WORLD:sub; int n,me=my(cm,&n); int map[SIM_MAXR]; { int w=c->rank; MPI_Allgather(&w,1,MPI_INT,map,1,MPI_INT,cm); }
    for(int q=0;q<nx;q++){ uint64_t z=rnd64(&c->r); if(n<2) continue; int src=(z>>8)%n,dst=(src+1+(z>>20)%(n-1))%n,mode=(z>>40)%3; 
        if(me==src){ op_begin(D,"send","rank %d to %d",src,dst); LIB(bml_mpi_send(A->A,dst,cm)); verify_const(D,0); op_end(D); }
        if(me==dst){ int k=-1; roomy(D,A); a=A-D->s; if(mode<2){ k=prefill(D); if(k==a){ fail(D,"harness","no room for a receiver"); } } op_begin(D,mode==0?"recv":mode==1?"irecv":"recv_matrix","rank %d from %d",dst,src); k=recv_into(D,k,src,cm,mode); expect(D,k,ALL+(size_t)map[src]*D->N*D->N); verify_const(D,1u<<k); op_end(D); readback(D,&D->s[k]);
            if(D->s[k].live&&rint_(&D->r,0,2)==0){ Slot keep=*A; A->live=0; slot_reserved=A-D->s; use(D); slot_reserved=-1; A->live=1; if(memcmp(&keep.hash,&A->hash,8)) fail(D,"harness","model changed"); op_begin(D,"irecv","after use"); verify_const(D,0); op_end(D); if(new_slot_idx(D)<0) drop_slot(D,k); } }
    }
    if(sub!=MPI_COMM_NULL) MPI_Comm_free(&sub);
    end_local(c,D); op_begin(c,"exchange","done"); verify_const(c,0); op_end(c); return 1; }
/* everybody receives and sends at once: completes only if nothing waits for buffering */
int op_shift(Ctx *c){ if(c->nranks<2) return 0; Ctx DD,*D=&DD; int rounds=rint_(&c->r,1,3); op_begin(c,"shift","%d rounds",rounds); begin_local(c,D); make(D,rint_(&D->r,0,3)); roomy(D,NULL); int a=anylive(D); Slot*A=&D->s[a]; int b=prefill(D); Slot*B=&D->s[b];
    MPI_Comm sub=subcomm(c); MPI_Comm cm=sub==MPI_COMM_NULL?MPI_COMM_WORLD:sub; int n,me=my(cm,&n); int map[SIM_MAXR]; { int w=c->rank; MPI_Allgather(&w,1,MPI_INT,map,1,MPI_INT,cm); }
    for(int q=0;q<rounds;q++){ uint64_t z=rnd64(&c->r); publish(c,A); if(n<2) continue; int d=1+(z>>20)%(n-1),to=(me+d)%n,from=(me-d+n)%n;
        if((z>>50)%3==0){ to=from=(me^1); if(to>=n) continue; } 
        op_begin(D,"irecv","rank %d from %d, to %d",me,from,to); LIB(bml_mpi_irecv(B->A,from,cm)); LIB(bml_mpi_send(A->A,to,cm)); LIB(bml_mpi_irecv_complete(B->A)); expect(D,b,ALL+(size_t)map[from]*D->N*D->N); verify_const(D,1u<<b); op_end(D);
        Slot*x=A; A=B; B=x; a=A-D->s; b=B-D->s; }
    readback(D,A); if(sub!=MPI_COMM_NULL) MPI_Comm_free(&sub); end_local(c,D); op_begin(c,"shift","done"); verify_const(c,0); op_end(c); return 1; }
int op_bcast(Ctx *c){ Ctx DD,*D=&DD; op_begin(c,"bcast","start"); begin_local(c,D); make(D,rint_(&D->r,0,4)); roomy(D,NULL); int a=anylive(D); Slot*A=&D->s[a]; publish(c,A); MPI_Comm sub=subcomm(c); MPI_Comm cm=sub==MPI_COMM_NULL?MPI_COMM_WORLD:sub; int n,me=my(cm,&n); int map[SIM_MAXR]; { int w=c->rank; MPI_Allgather(&w,1,MPI_INT,map,1,MPI_INT,cm); } 
    int rounds=1+(rnd64(&c->r)>>30)%2;
    for(int q=0;q<rounds;q++){ int root=(int)((rnd64(&c->r)>>20)%n); op_begin(D,"bcast","root %d of %d",root,n); LIB(bml_mpi_bcast_matrix(A->A,root,cm)); expect(D,a,ALL+(size_t)map[root]*D->N*D->N); verify_const(D,1u<<a); op_end(D); publish(c,A); }
    readback(D,A); use(D); if(sub!=MPI_COMM_NULL) MPI_Comm_free(&sub); end_local(c,D); op_begin(c,"bcast","done"); verify_const(c,0); op_end(c); return 1; }

/* ---------------- reductions, partitions ---------------- */
static double redval(Ctx*c,int r,uint64_t z,int kind){ Rng q={z^((uint64_t)(r+3)*0xD1B54A32D192ED03ull)}; rnd64(&q); switch(kind){ case 0: return rint_(&q,-1000,1000); case 1: return ldexp(2*runi(&q)-1,rint_(&q,-300,300)); case 2: return -1-runi(&q); case 3: return r==0?1:0; case 4: return 1e300*(runi(&q)); default: return runi(&q); } }
int op_reduce(Ctx*c){ int R=c->nranks; for(int q=0;q<4;q++){ uint64_t z=rnd64(&c->r); int kind=rint_(&c->r,0,5),which=rint_(&c->r,0,2); if(which==0&&kind==4) kind=0; static const char*nm[]={"sum_reduce","min_reduce","max_reduce"}; double v=redval(c,c->rank,z,kind); ld s=0,m=0,lo=INFINITY,hi=-INFINITY; for(int r=0;r<R;r++){ double x=redval(c,r,z,kind); s+=x; m+=fabsl(x); if(x<lo) lo=x; if(x>hi) hi=x; }
        op_begin(c,nm[which],"kind %d",kind); if(which==0){ LIB(bml_sumRealReduce(&v)); verify_scalar(c,"global sum",v,s,R*2.3e-16L*m); } else if(which==1){ LIB(bml_minRealReduce(&v)); verify_scalar(c,"global minimum",v,lo,0); } else { LIB(bml_maxRealReduce(&v)); verify_scalar(c,"global maximum",v,hi,0); }
        if(CH(c,4)) LIB(bml_barrierParallel()); op_end(c); }
    return 1; }
int op_partition(Ctx*c){ int R=c->nranks; for(int q=0;q<8;q++){ int N; switch(rint_(&c->r,0,5)){ case 0: N=rint_(&c->r,1,R); break; case 1: N=R*rint_(&c->r,1,9)+rint_(&c->r,-1,1); break; case 2: N=rint_(&c->r,1,100000); break; case 3: N=(1<<24)+rint_(&c->r,-3,3000); break; default: N=rint_(&c->r,1,80); } if(N<1) N=1; int M=N>2000?rint_(&c->r,1,20):rint_(&c->r,1,N);
        op_begin(c,"partition","N=%d M=%d over %d",N,M,R); bml_domain_t*d; LIB(d=bml_default_domain(N,M,distributed)); long long pos=0; int mn=1<<30,mx=0;
        if(d->totalProcs!=R||d->totalRows!=N||d->totalCols!=M||d->globalRowMin!=0||d->globalRowMax!=N||d->globalRowExtent!=N) fail(c,"value","partition describes %d rows x %d over %d ranks",d->totalRows,d->totalCols,d->totalProcs);
        for(int r=0;r<R;r++){ if(d->localRowMin[r]!=pos) fail(c,"value","rank %d starts at row %d, the previous range ends at %lld",r,d->localRowMin[r],pos); if(d->localRowMax[r]<d->localRowMin[r]||d->localRowExtent[r]!=d->localRowMax[r]-d->localRowMin[r]) fail(c,"value","rank %d covers [%d,%d) extent %d",r,d->localRowMin[r],d->localRowMax[r],d->localRowExtent[r]);
            if(d->localElements[r]!=d->localRowExtent[r]*M||d->localDispl[r]!=(int)(pos*M)) fail(c,"value","rank %d: %d elements at displacement %d for rows [%d,%d) of %d",r,d->localElements[r],d->localDispl[r],d->localRowMin[r],d->localRowMax[r],M);
            if(d->localRowExtent[r]<mn) mn=d->localRowExtent[r]; if(d->localRowExtent[r]>mx) mx=d->localRowExtent[r]; pos=d->localRowMax[r]; }
        if(pos!=N) fail(c,"value","ranges end at row %lld of %d",pos,N); if(mx-mn>1) fail(c,"value","ranges of %d and %d rows",mn,mx); if(d->minLocalExtent!=mn||d->maxLocalExtent!=mx) fail(c,"value","smallest/largest range reported %d/%d, actual %d/%d",d->minLocalExtent,d->maxLocalExtent,mn,mx);
        bml_domain_t*e; LIB(e=bml_default_domain(N,M,sequential)); for(int r=0;r<R;r++) if(e->localRowMin[r]!=0||e->localRowMax[r]!=N||e->localRowExtent[r]!=N||e->localDispl[r]!=0||e->localElements[r]!=(int)((long long)N*M)) fail(c,"value","undistributed domain of rank %d covers [%d,%d)",r,e->localRowMin[r],e->localRowMax[r]);
        LIB(bml_copy_domain(d,e)); for(int r=0;r<R;r++) if(e->localRowMin[r]!=d->localRowMin[r]||e->localRowMax[r]!=d->localRowMax[r]||e->localRowExtent[r]!=d->localRowExtent[r]||e->localDispl[r]!=d->localDispl[r]||e->localElements[r]!=d->localElements[r]) fail(c,"value","copied domain differs at rank %d",r);
        SH->checks_total+=R*5; LIB(bml_deallocate_domain(d)); LIB(bml_deallocate_domain(e)); op_end(c); }
    return 1; }
/* parts of rows per rank: 1-based ranges into nn[], possibly empty */
typedef struct { int mn[SIM_MAXR],mx[SIM_MAXR],nn[64],np,row[SIM_MAXR+1]; } Parts;
static void parts(Ctx*c,int N,Parts*P){ int R=c->nranks; P->np=0; int kind=rint_(&c->r,0,3); int cut[SIM_MAXR+1]; cut[0]=0; cut[R]=N; for(int r=1;r<R;r++) cut[r]=kind==0?(int)((long)N*r/R):kind==3?(r<R/2?0:N):rint_(&c->r,0,N); for(int i=1;i<R;i++) for(int j=i;j>1&&cut[j]<cut[j-1];j--){ int x=cut[j]; cut[j]=cut[j-1]; cut[j-1]=x; }
    for(int r=0;r<R;r++){ int rows=cut[r+1]-cut[r]; P->row[r]=cut[r]; P->mn[r]=P->np+1; int k=rows>1&&P->np<40?rint_(&c->r,1,rows<3?rows:3):1; if(rows==0){ if(CH(c,2)){ P->mx[r]=P->np; continue; } } for(int q=0;q<k;q++){ int t=q==k-1?rows:rows>0?rint_(&c->r,0,rows):0; P->nn[P->np++]=t; rows-=t; } P->mx[r]=P->np; } P->row[R]=N; }
static bml_domain_t *domof(Slot*s){ return s->t==dense?((bml_matrix_dense_t*)s->A)->domain:((bml_matrix_ellpack_t*)s->A)->domain; }
static void setdom(Ctx*c,Slot*s,Parts*P){ LIB(bml_update_domain(s->A,P->mn,P->mx,P->nn)); bml_domain_t*d=domof(s); int mn=1<<30,mx=0; for(int r=0;r<c->nranks;r++){ int a=P->row[r],b=P->row[r+1]; if(d->localRowMin[r]!=a||d->localRowMax[r]!=b||d->localRowExtent[r]!=b-a) fail(c,"value","rank %d was given rows [%d,%d), the domain has [%d,%d)",r,a,b,d->localRowMin[r],d->localRowMax[r]); int w=s->t==dense?s->N:s->M; if(d->localElements[r]!=(b-a)*w||d->localDispl[r]!=a*w) fail(c,"value","rank %d: %d elements at displacement %d for rows [%d,%d)",r,d->localElements[r],d->localDispl[r],a,b); if(b-a<mn) mn=b-a; if(b-a>mx) mx=b-a; } if(d->minLocalExtent!=mn||d->maxLocalExtent!=mx) fail(c,"value","smallest/largest range reported %d/%d, actual %d/%d",d->minLocalExtent,d->maxLocalExtent,mn,mx); SH->checks_total+=c->nranks*4; }
static ld stol(Ctx*c,ld m){ return 8*(ld)c->eps*m+((c->p==single_real||c->p==single_complex)?1e-40L:1e-300L); }
static Slot *rnds(Ctx*c,int excl){ int o[MAXSLOT],n=0; for(int k=0;k<MAXSLOT;k++) if(c->s[k].live&&!(excl>>k&1)) o[n++]=k; return n?&c->s[o[rint_(&c->r,0,n-1)]]:NULL; }
static int distable(Ctx*c){ return c->t==dense||c->t==ellpack; }
/* each rank computes its rows of a replicated matrix, then the rows are gathered */
int op_gather(Ctx*c){ if(!distable(c)) return 0; Slot*A=rnds(c,0); if(!A) return 0; Slot*B=rnds(c,1u<<A->id); int N=A->N; Parts P; parts(c,N,&P); int what=rint_(&c->r,0,4); if(!B&&(what==1||what==2)) what=0; int ch=c->mmode&&what==1; 
    static const char*nm[]={"own rows rescaled","sum","scaled copy","threshold","own rows only"}; double al=0.5+runi(&c->r),be=2*runi(&c->r)-1,thr=what==1||what==3?gen_thr(c,A):0; cld f=gen_value(c); double complex fb[2]; eset(fb,0,c->p,f);
    char pb[200]; int o=0; for(int r=0;r<=c->nranks&&o<180;r++) o+=snprintf(pb+o,sizeof pb-o,"%d ",P.row[r]); op_begin(c,"gather","s%d %s with s%d, rows split at %s thr=%.9g",A->id,nm[what],B?B->id:-1,pb,thr); if(ch) SH->refuse_ok=1;
    LIB(bml_save_domain(A->A)); setdom(c,A,&P); if(B){ LIB(bml_save_domain(B->A)); setdom(c,B,&P); } int lo=P.row[c->rank],hi=P.row[c->rank+1];
    EACH(e,N){ cld x=A->v[e]; TOLs[e]=DROPs[e]=0; switch(what){ case 0: x=f*x; TOLs[e]=stol(c,cab(x)); break; case 1: x=al*A->v[e]+be*B->v[e]; TOLs[e]=stol(c,cab(al*A->v[e])+cab(be*B->v[e])); DROPs[e]=c->t==dense?0:thr*(1+1e-5L); break; case 2: x=f*B->v[e]; TOLs[e]=stol(c,cab(x)); break; case 3: { ld m=cab(x),z=is_cplx(c->p)?1e-6L:0; if(m<=thr*(1-z)) x=0; else if(m<=thr*(1+z)) DROPs[e]=thr*(1+2e-6L); break; } default: break; } EXPv[e]=x; }
    switch(what){ case 0: LIB(bml_scale_inplace(fb,A->A)); break; case 1: LIB(bml_add(A->A,B->A,al,be,thr)); break; case 2: LIB(bml_scale(fb,B->A,A->A)); break; case 3: LIB(bml_threshold(A->A,thr)); break;
      case 4: { /* ranks keep only their own rows; the others are overwritten locally */ static cld row[NMAX]; void*rw=hal(N*16+16); for(int i=0;i<N;i++) if(i<lo||i>=hi){ for(int j=0;j<N;j++) eset(rw,j,c->p,(c->t==dense||j==i)?c->rank+1:0); LIB(bml_set_row(A->A,i,rw,0)); } hfree(rw); break; } }
    LIB(bml_allGatherVParallel(A->A)); verify(c,A); verify_const(c,1u<<A->id); LIB(bml_restore_domain(A->A)); if(B) LIB(bml_restore_domain(B->A)); op_end(c); op_begin(c,"gather","readback"); readback(c,A); op_end(c); return 1; }
static ld sq(cld z){ return creall(z)*creall(z)+cimagl(z)*cimagl(z); }
/* each rank contributes its rows' part of a scalar */
int op_partial(Ctx*c){ if(!distable(c)) return 0; Slot*A=rnds(c,0),*B=rnds(c,0); if(!A) return 0; int N=A->N; Parts P; parts(c,N,&P); int what=rint_(&c->r,0,4); static const char*nm[]={"trace","trace_mult","sum_squares","sum_AB","sum_squares2"}; double al=2*runi(&c->r)-1,be=2*runi(&c->r)-1; char pb[200]; int o=0; for(int r=0;r<=c->nranks&&o<180;r++) o+=snprintf(pb+o,sizeof pb-o,"%d ",P.row[r]);
    op_begin(c,"partial","%s of s%d, s%d; rows split at %s",nm[what],A->id,B->id,pb); LIB(bml_save_domain(A->A)); setdom(c,A,&P); if(B!=A){ LIB(bml_save_domain(B->A)); setdom(c,B,&P); }
    ld part=0,t=0,m=0; int lo=P.row[c->rank],hi=P.row[c->rank+1]; EACH(e,N){ int i=e/N,j=e%N; ld x=0,g=0; switch(what){ case 0: if(i==j){ x=creall(A->v[e]); g=cab(A->v[e]); } break; case 1: { cld y=A->v[e]*B->v[j*N+i]; x=creall(y); g=cab(y); break; } case 2: x=g=sq(A->v[e]); break; case 3: { cld y=al*A->v[e]*B->v[e]; x=creall(y); g=cab(y); break; } case 4: { x=sq(al*A->v[e]+be*B->v[e]); g=cab(al*A->v[e])+cab(be*B->v[e]); g*=g; break; } } t+=x; m+=g; if(i>=lo&&i<hi) part+=x; }
    double r=0; switch(what){ case 0: LIB(r=bml_trace(A->A)); break; case 1: LIB(r=bml_trace_mult(A->A,B->A)); break; case 2: LIB(r=bml_sum_squares(A->A)); break; case 3: LIB(r=bml_sum_AB(A->A,B->A,al,0)); break; case 4: LIB(r=bml_sum_squares2(A->A,B->A,al,be,0)); break; }
    ld tol=(N*N+8)*4*(ld)c->eps*m+1e-30L; verify_scalar(c,"contribution of the rank's rows",r,part,tol); LIB(bml_sumRealReduce(&r)); verify_scalar(c,"total over all ranks",r,t,2*tol);
    LIB(bml_restore_domain(A->A)); if(B!=A) LIB(bml_restore_domain(B->A)); verify_const(c,0); op_end(c); return 1; }
