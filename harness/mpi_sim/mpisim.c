#include "../mon.h"
#include "mpi.h"
#include "mpisim.h"
#include <semaphore.h>
#define MAXC 4096
#define MAXM 20000
#define MAXK 20000
#define HEAP (192u<<20)
#define MAXSIG 24
typedef struct { int n; int ty[MAXSIG]; long ct[MAXSIG]; } Sig;
typedef struct { int used,size,ranks[SIM_MAXR],ndims,dims[4],per[4],freed[SIM_MAXR],keep; long pk; int color; } Comm;
typedef struct { int src,dst,ctx,tag,post,ready,consumed,sync; size_t off,bytes; Sig sig; } Msg;
typedef struct { int src,dst,ctx,tag,msg; } Post;
typedef struct { int ctx,seq,kind,root,arrived,op,ty; size_t off[SIM_MAXR],bytes[SIM_MAXR]; int in[SIM_MAXR]; int a[SIM_MAXR],b[SIM_MAXR]; } Coll;
typedef struct {
    int nr, finished[SIM_MAXR], waiting[SIM_MAXR]; unsigned waited[SIM_MAXR], progress; uint64_t rng; sem_t sem[SIM_MAXR]; char what[SIM_MAXR][100]; int atend[SIM_MAXR];
    int ncomm,nmsg,npost,ncoll; size_t heap; SimStat st; double eager, sw;
    Comm comm[MAXC]; Msg msg[MAXM]; Post post[MAXM]; Coll coll[MAXK]; char data[HEAP];
} Sim;
static Sim *S; static int ME=-1; Ctx *SIMC;
static Ctx dummy;
#define FAILM(...) fail(SIMC?SIMC:&dummy,"message",__VA_ARGS__)
static uint64_t srnd(void){ uint64_t z=(S->rng+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
static int sch(double p){ return (srnd()>>11)/9007199254740992.0<p; }
void sim_create(void){ S=mmap(NULL,sizeof *S,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(S==MAP_FAILED){ perror("mmap"); exit(2);} }
void sim_reset(int nr,uint64_t seed){
    S->nr=nr; S->rng=seed; S->progress=0; S->nmsg=S->npost=S->ncoll=0; S->heap=0; memset(&S->st,0,sizeof S->st);
    memset(S->comm,0,sizeof(Comm)*(S->ncomm>4?S->ncomm:4)); S->ncomm=3;
    Comm*w=&S->comm[MPI_COMM_WORLD]; w->used=1; w->size=nr; w->keep=1; for(int i=0;i<nr;i++) w->ranks[i]=i;
    Comm*e=&S->comm[MPI_COMM_SELF]; e->used=1; e->size=1; e->keep=1; e->ranks[0]=-1;
    for(int i=0;i<SIM_MAXR;i++){ S->finished[i]=S->waiting[i]=S->atend[i]=0; S->waited[i]=0; S->what[i][0]=0; sem_init(&S->sem[i],1,0); }
    static const double eg[]={0,0.5,0.9,1}; S->eager=eg[srnd()%4]; static const double sw[]={0.05,0.3,0.7}; S->sw=sw[srnd()%3];
    sem_post(&S->sem[srnd()%nr]);
}
SimStat sim_stats(void){ return S->st; }
int sim_isfinished(int r){ return S->finished[r]; }
static int pick(void){ int c[SIM_MAXR],n=0; for(int i=0;i<S->nr;i++) if(!S->finished[i]&&!(S->waiting[i]&&S->waited[i]==S->progress)) c[n++]=i; if(!n) return -1; int k=c[srnd()%n]; S->st.hash=(S->st.hash^(k+1))*1099511628211ull; return k; }
static void deadlock(void){ char b[1500]; int o=0; for(int i=0;i<S->nr;i++) o+=snprintf(b+o,sizeof b-o,"rank %d: %s; ",i,S->finished[i]?"finished":S->what[i]); fail(SIMC?SIMC:&dummy,"deadlock","no rank can continue: %s",b); }
static void give(int nx){ if(nx<0) deadlock(); if(nx==ME) return; S->st.switches++; int il=SH->in_lib; char op[48]; memcpy(op,(char*)SH->op,48); static char det[1600]; memcpy(det,(char*)SH->detail,1600); int ro=SH->refuse_ok;
    sem_post(&S->sem[nx]); while(sem_wait(&S->sem[ME])<0){} SH->in_lib=il; SH->refuse_ok=ro; memcpy((char*)SH->op,op,48); memcpy((char*)SH->detail,det,1600); }
static void deliver(int force); static void packdef(int force);
static void sw(void){ deliver(0); packdef(0); if(sch(S->sw)) give(pick()); }
static void moved(void){ S->progress++; }
#define BLOCK(cond,...) do{ if(!(cond)){ packdef(1); snprintf(S->what[ME],100,__VA_ARGS__); while(!(cond)){ S->waiting[ME]=1; S->waited[ME]=S->progress; give(pick()); } S->waiting[ME]=0; S->what[ME][0]=0; } }while(0)
static int collseq[MAXC];
void sim_start(int r){ ME=r; while(sem_wait(&S->sem[ME])<0){} memset(collseq,0,sizeof collseq); S->comm[MPI_COMM_SELF].ranks[0]=0; }
void sim_exit(void){ S->finished[ME]=1; moved(); int left=0; for(int i=0;i<S->nr;i++) left+=!S->finished[i]; if(left){ int k=pick(); if(k<0) deadlock(); sem_post(&S->sem[k]); } }

/* ---- communicators ---- */
static Comm *gc(MPI_Comm c,const char*fn){ if(c<=0||c>=S->ncomm||!S->comm[c].used) FAILM("%s: invalid communicator",fn); Comm*k=&S->comm[c]; if(k->freed[ME]) FAILM("%s: communicator was freed",fn); return k; }
static int myrank(Comm*k){ if(k==&S->comm[MPI_COMM_SELF]) return 0; for(int i=0;i<k->size;i++) if(k->ranks[i]==ME) return i; FAILM("rank is not a member of the communicator"); return -1; }
static int wr(Comm*k,int r,const char*fn){ if(k==&S->comm[MPI_COMM_SELF]) return ME; if(r<0||r>=k->size) FAILM("%s: rank %d not in communicator of size %d",fn,r,k->size); return k->ranks[r]; }
static int lrank(Comm*k,int w){ for(int i=0;i<k->size;i++) if(k->ranks[i]==w) return i; return 0; }
int MPI_Comm_size(MPI_Comm c,int*n){ *n=gc(c,"MPI_Comm_size")->size; return 0; }
int MPI_Comm_rank(MPI_Comm c,int*n){ *n=myrank(gc(c,"MPI_Comm_rank")); return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f){ return f; } MPI_Fint MPI_Comm_c2f(MPI_Comm c){ return c; }
int MPI_Comm_set_errhandler(MPI_Comm c,MPI_Errhandler e){ return 0; }
int MPI_Comm_compare(MPI_Comm a,MPI_Comm b,int*r){ *r=a==b?0:1; return 0; }

/* ---- data types ---- */
typedef struct { int ty; MPI_Aint off; long n; } Blk;
typedef struct { int used,freed,nb; Blk *b; MPI_Aint ext; } Ty;
static Ty TY[20000]; static int nty=SIM_NBASIC; static int tylive;
static size_t bs(int t){ switch(t){ case MPI_CHAR:case MPI_BYTE:case MPI_UNSIGNED_CHAR:case MPI_C_BOOL:return 1; case MPI_SHORT:return 2; case MPI_INT:case MPI_UNSIGNED:case MPI_FLOAT:return 4; case MPI_LONG_DOUBLE:case MPI_C_DOUBLE_COMPLEX:return 16; default:return 8; } }
static void ckty(int t,const char*fn){ if(t<=0||t>=nty||(t>=SIM_NBASIC&&(!TY[t].used||TY[t].freed))) FAILM("%s: invalid data type",fn); }
static MPI_Aint ext(int t){ return t<SIM_NBASIC?(MPI_Aint)bs(t):TY[t].ext; }
static size_t tsize(int t){ if(t<SIM_NBASIC) return bs(t); size_t s=0; for(int i=0;i<TY[t].nb;i++) s+=bs(TY[t].b[i].ty)*TY[t].b[i].n; return s; }
static int mk(int cap){ if(nty>=20000) FAILM("too many data types"); Ty*t=&TY[nty]; t->used=1; t->freed=0; t->nb=0; t->b=calloc(cap?cap:1,sizeof(Blk)); track_mark_safe(t->b); t->ext=0; tylive++; return nty++; }
static void addb(Ty*t,int old,MPI_Aint off,int n){ MPI_Aint e=ext(old); if(n<=0) return;
    if(old<SIM_NBASIC){ t->b[t->nb++]=(Blk){old,off,n}; } else for(int k=0;k<n;k++) for(int i=0;i<TY[old].nb;i++){ Blk q=TY[old].b[i]; q.off+=off+k*e; t->b[t->nb++]=q; }
    if(off+n*e>t->ext) t->ext=off+n*e; }
static int cap(int old,long n){ return old<SIM_NBASIC?1:TY[old].nb*n; }
int MPI_Type_create_struct(int n,const int*bl,const MPI_Aint*d,const MPI_Datatype*ty,MPI_Datatype*o){ int c=0; for(int i=0;i<n;i++){ ckty(ty[i],"MPI_Type_create_struct"); c+=cap(ty[i],bl[i]); } int h=mk(c); for(int i=0;i<n;i++) addb(&TY[h],ty[i],d[i],bl[i]); *o=h; return 0; }
int MPI_Type_struct(int n,int*bl,MPI_Aint*d,MPI_Datatype*ty,MPI_Datatype*o){ return MPI_Type_create_struct(n,bl,d,ty,o); }
int MPI_Type_contiguous(int n,MPI_Datatype t,MPI_Datatype*o){ ckty(t,"MPI_Type_contiguous"); int h=mk(cap(t,n)); addb(&TY[h],t,0,n); *o=h; return 0; }
int MPI_Type_vector(int n,int bl,int st,MPI_Datatype t,MPI_Datatype*o){ ckty(t,"MPI_Type_vector"); int h=mk(n*cap(t,bl)); for(int i=0;i<n;i++) addb(&TY[h],t,(MPI_Aint)i*st*ext(t),bl); *o=h; return 0; }
int MPI_Type_create_hindexed(int n,const int*bl,const MPI_Aint*d,MPI_Datatype t,MPI_Datatype*o){ int c=0; for(int i=0;i<n;i++) c+=cap(t,bl[i]); int h=mk(c); for(int i=0;i<n;i++) addb(&TY[h],t,d[i],bl[i]); *o=h; return 0; }
int MPI_Type_create_resized(MPI_Datatype t,MPI_Aint lb,MPI_Aint e,MPI_Datatype*o){ int h=mk(cap(t,1)); addb(&TY[h],t,0,1); TY[h].ext=e; *o=h; return 0; }
int MPI_Type_create_subarray(int nd,const int*sz,const int*ss,const int*st,int ord,MPI_Datatype t,MPI_Datatype*o){ if(nd!=2) FAILM("subarray rank not supported"); int r=ord==MPI_ORDER_C?0:1,q=1-r; int h=mk(ss[r]*cap(t,ss[q])); for(int i=0;i<ss[r];i++) addb(&TY[h],t,((MPI_Aint)(st[r]+i)*sz[q]+st[q])*ext(t),ss[q]); TY[h].ext=(MPI_Aint)sz[0]*sz[1]*ext(t); *o=h; return 0; }
int MPI_Type_commit(MPI_Datatype*t){ ckty(*t,"MPI_Type_commit"); return 0; }
int MPI_Type_free(MPI_Datatype*t){ ckty(*t,"MPI_Type_free"); if(*t<SIM_NBASIC) FAILM("MPI_Type_free of a basic type"); TY[*t].freed=1; tylive--; *t=MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t,int*s){ ckty(t,"MPI_Type_size"); *s=tsize(t); return 0; }
int MPI_Get_address(const void*p,MPI_Aint*a){ *a=(MPI_Aint)p; return 0; }
static void sigadd(Sig*s,int ty,long n){ if(n<=0) return; if(s->n&&s->ty[s->n-1]==ty){ s->ct[s->n-1]+=n; return; } if(s->n<MAXSIG){ s->ty[s->n]=ty; s->ct[s->n++]=n; } }
static Sig mksig(long count,int t){ Sig s; s.n=0; if(t<SIM_NBASIC) sigadd(&s,t,count); else for(long k=0;k<count;k++) for(int i=0;i<TY[t].nb;i++) sigadd(&s,TY[t].b[i].ty,TY[t].b[i].n); return s; }
static int prefix(const Sig*a,const Sig*b){ /* a (sent) is a prefix of b (expected) */ for(int i=0;i<a->n;i++){ if(i>=b->n||a->ty[i]!=b->ty[i]) return 0; if(a->ct[i]>b->ct[i]) return 0; if(a->ct[i]<b->ct[i]&&i<a->n-1) return 0; } return 1; }
static size_t halloc(size_t n){ size_t o=(S->heap+15)&~(size_t)15; if(o+n>HEAP) { fail(SIMC?SIMC:&dummy,"harness","message heap exhausted"); } S->heap=o+n; return o; }
static void pack(char*dst,const void*buf,long count,int t){ const char*p=buf; if(t<SIM_NBASIC){ if(count>0) memcpy(dst,p,bs(t)*count); return; } for(long k=0;k<count;k++) for(int i=0;i<TY[t].nb;i++){ Blk*b=&TY[t].b[i]; size_t n=bs(b->ty)*b->n; memcpy(dst,p+k*TY[t].ext+b->off,n); dst+=n; } }
static void unpack(const char*src,size_t bytes,void*buf,long count,int t){ char*p=buf; if(t<SIM_NBASIC){ if(bytes) memcpy(p,src,bytes); return; } for(long k=0;k<count&&bytes;k++) for(int i=0;i<TY[t].nb&&bytes;i++){ Blk*b=&TY[t].b[i]; size_t n=bs(b->ty)*b->n; if(n>bytes) n=bytes; memcpy(p+k*TY[t].ext+b->off,src,n); src+=n; bytes-=n; } }

/* ---- point to point ---- */
typedef struct { int kind; int id; void*buf; long count; int ty; int msg; int done; MPI_Status st; int ctx; } Req;  /* kind 0 free 1 send 2 recv */
static Req RQ[4096];
static int nrq(void){ for(int i=1;i<4096;i++) if(!RQ[i].kind) return i; FAILM("too many requests in flight"); return 0; }
static int okmatch(Post*p,Msg*m){ return p->dst==m->dst&&p->ctx==m->ctx&&(p->src==MPI_ANY_SOURCE||p->src==m->src)&&(p->tag==MPI_ANY_TAG||p->tag==m->tag); }
static int postmsg(const void*buf,long count,int ty,int dst,int tag,MPI_Comm c,const char*fn,int defer){
    Comm*k=gc(c,fn); ckty(ty,fn); if(count<0) FAILM("%s: negative count",fn); if(tag<0) FAILM("%s: negative tag",fn); if(S->nmsg>=MAXM) fail(SIMC,"harness","too many messages");
    int w=wr(k,dst,fn); int i=S->nmsg++; Msg*m=&S->msg[i]; m->src=ME; m->dst=w; m->ctx=c; m->tag=tag; m->post=-1; m->consumed=0; m->bytes=tsize(ty)*count; m->off=halloc(m->bytes); m->sig=mksig(count,ty); m->ready=0;
    if(!defer){ pack(S->data+m->off,buf,count,ty); m->ready=1; } else S->st.delayed++;
    for(int q=0;q<S->npost;q++) if(S->post[q].msg<0&&okmatch(&S->post[q],m)){ S->post[q].msg=i; m->post=q; break; }
    S->st.msgs++; S->st.bytes+=m->bytes; moved(); return i; }
static int postrecv(int src,int tag,MPI_Comm c,const char*fn){
    Comm*k=gc(c,fn); if(S->npost>=MAXM) fail(SIMC,"harness","too many receives"); int w=src==MPI_ANY_SOURCE?MPI_ANY_SOURCE:wr(k,src,fn); int q=S->npost++; Post*p=&S->post[q]; p->src=w; p->dst=ME; p->ctx=c; p->tag=tag; p->msg=-1;
    int cand[SIM_MAXR],n=0; unsigned seen=0; for(int i=0;i<S->nmsg;i++){ Msg*m=&S->msg[i]; if(m->post<0&&okmatch(p,m)&&!(seen>>m->src&1)){ seen|=1u<<m->src; cand[n++]=i; } }
    if(n){ int i=cand[n>1?srnd()%n:0]; p->msg=i; S->msg[i].post=q; } moved(); return q; }
static void take(int q,void*buf,long count,int ty,MPI_Comm c,MPI_Status*st,const char*fn){ Msg*m=&S->msg[S->post[q].msg];
    if(m->bytes>tsize(ty)*count) FAILM("%s: message of %zu bytes truncated to %zu (from %d, tag %d)",fn,m->bytes,tsize(ty)*count,m->src,m->tag);
    Sig r=mksig(count,ty); if(!prefix(&m->sig,&r)) FAILM("%s: type signature of the message from rank %d tag %d does not match the receive",fn,m->src,m->tag);
    unpack(S->data+m->off,m->bytes,buf,count,ty); m->consumed=1; moved(); if(st){ st->MPI_SOURCE=lrank(&S->comm[c],m->src); st->MPI_TAG=m->tag; st->MPI_ERROR=0; st->_bytes=m->bytes; } }
static void packreq(Req*r){ Msg*m=&S->msg[r->msg]; if(!m->ready){ pack(S->data+m->off,r->buf,r->count,r->ty); m->ready=1; moved(); } }
static void packdef(int force){ for(int i=1;i<64;i++) if(RQ[i].kind==1&&!S->msg[RQ[i].msg].ready&&(force||sch(0.3))) packreq(&RQ[i]); }
static int rready(Req*r){ int m=S->post[r->id].msg; return m>=0&&S->msg[m].ready; }
static void dorecv(Req*r){ if(!r->done){ take(r->id,r->buf,r->count,r->ty,r->ctx,&r->st,"MPI_Irecv"); r->done=1; } }
static void deliver(int force){ for(int i=1;i<64;i++) if(RQ[i].kind==2&&!RQ[i].done&&rready(&RQ[i])&&(force||sch(0.5))) dorecv(&RQ[i]); }
static int sendb(const void*b,int n,int ty,int d,int tag,MPI_Comm c,int mode,const char*fn){ if(d==MPI_PROC_NULL) return 0; sw(); int i=postmsg(b,n,ty,d,tag,c,fn,0); int sync=mode==1||(mode==0&&!sch(S->eager)); if(sync){ S->st.sync++; BLOCK(S->msg[i].post>=0,"%s to rank %d tag %d",fn,S->msg[i].dst,tag); } else if(sch(S->sw)) give(pick()); return 0; }
int MPI_Send(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return sendb(b,n,t,d,tag,c,0,"MPI_Send"); }
int MPI_Ssend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return sendb(b,n,t,d,tag,c,1,"MPI_Ssend"); }
int MPI_Bsend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return sendb(b,n,t,d,tag,c,2,"MPI_Bsend"); }
int MPI_Rsend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return sendb(b,n,t,d,tag,c,0,"MPI_Rsend"); }
static int isend(const void*b,int n,int t,int d,int tag,MPI_Comm c,MPI_Request*rq,int sync){ if(d==MPI_PROC_NULL){ *rq=MPI_REQUEST_NULL; return 0; } sw(); int i=nrq(); Req*r=&RQ[i]; memset(r,0,sizeof *r); int m=postmsg(b,n,t,d,tag,c,"MPI_Isend",i<64&&sch(0.5)); r->kind=1; r->msg=m; r->buf=(void*)b; r->count=n; r->ty=t; r->ctx=c; S->msg[m].sync=sync||!sch(S->eager); *rq=i; return 0; }
int MPI_Isend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*r){ return isend(b,n,t,d,tag,c,r,0); }
int MPI_Issend(const void*b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request*r){ return isend(b,n,t,d,tag,c,r,1); }
int MPI_Irecv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Request*rq){ if(s==MPI_PROC_NULL){ *rq=MPI_REQUEST_NULL; return 0; } sw(); ckty(t,"MPI_Irecv"); int i=nrq(); Req*r=&RQ[i]; memset(r,0,sizeof *r); r->kind=2; r->id=postrecv(s,tag,c,"MPI_Irecv"); r->buf=b; r->count=n; r->ty=t; r->ctx=c; *rq=i; return 0; }
int MPI_Recv(void*b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Status*st){ if(s==MPI_PROC_NULL) return 0; sw(); ckty(t,"MPI_Recv"); int q=postrecv(s,tag,c,"MPI_Recv"); BLOCK(S->post[q].msg>=0&&S->msg[S->post[q].msg].ready,"MPI_Recv from rank %d tag %d",s,tag); take(q,b,n,t,c,st,"MPI_Recv"); return 0; }
static int rdone(Req*r){ if(r->kind==1){ Msg*m=&S->msg[r->msg]; return m->ready&&(!m->sync||m->post>=0); } return r->done||rready(r); }
static void rfin(MPI_Request*q,MPI_Status*st){ Req*r=&RQ[*q]; if(r->kind==2){ dorecv(r); if(st) *st=r->st; } r->kind=0; *q=MPI_REQUEST_NULL; }
static Req*grq(MPI_Request q){ if(q<0||q>=4096||!RQ[q].kind) FAILM("invalid request"); return &RQ[q]; }
int MPI_Wait(MPI_Request*q,MPI_Status*st){ sw(); if(*q==MPI_REQUEST_NULL) return 0; Req*r=grq(*q); if(r->kind==1) packreq(r); BLOCK(rdone(r),"MPI_Wait for %s",r->kind==1?"a send":"a receive"); rfin(q,st); return 0; }
int MPI_Waitall(int n,MPI_Request*q,MPI_Status*st){ sw(); for(int i=0;i<n;i++) if(q[i]){ Req*r=grq(q[i]); if(r->kind==1) packreq(r); } for(int i=0;i<n;i++) if(q[i]){ Req*r=grq(q[i]); BLOCK(rdone(r),"MPI_Waitall, request %d of %d",i,n); rfin(&q[i],st?&st[i]:NULL); } return 0; }
int MPI_Waitany(int n,MPI_Request*q,int*ix,MPI_Status*st){ sw(); int any=0; for(int i=0;i<n;i++) if(q[i]) any=1; if(!any){ *ix=MPI_UNDEFINED; return 0; } packdef(1); int f=-1; 
#define ANYR ({ int d[4096],k=0; for(int i=0;i<n;i++) if(q[i]&&rdone(grq(q[i]))) d[k++]=i; if(k) f=d[srnd()%k]; k>0; })
    BLOCK(ANYR,"MPI_Waitany"); if(f<0) ANYR; rfin(&q[f],st); *ix=f; return 0; }
int MPI_Test(MPI_Request*q,int*fl,MPI_Status*st){ sw(); packdef(1); if(*q==MPI_REQUEST_NULL){ *fl=1; return 0; } Req*r=grq(*q); if(rdone(r)&&sch(0.8)){ rfin(q,st); *fl=1; } else { *fl=0; give(pick()); } return 0; }
int MPI_Testall(int n,MPI_Request*q,int*fl,MPI_Status*st){ sw(); packdef(1); for(int i=0;i<n;i++) if(q[i]&&!rdone(grq(q[i]))){ *fl=0; give(pick()); return 0; } *fl=1; return MPI_Waitall(n,q,st); }
int MPI_Request_free(MPI_Request*q){ Req*r=grq(*q); if(r->kind==1) packreq(r); r->kind=0; *q=0; return 0; }
int MPI_Sendrecv(const void*sb,int sn,MPI_Datatype stt,int d,int stg,void*rb,int rn,MPI_Datatype rt,int s,int rtg,MPI_Comm c,MPI_Status*st){ MPI_Request a,b; MPI_Irecv(rb,rn,rt,s,rtg,c,&a); MPI_Isend(sb,sn,stt,d,stg,c,&b); MPI_Wait(&b,NULL); return MPI_Wait(&a,st); }
int MPI_Sendrecv_replace(void*b,int n,MPI_Datatype t,int d,int stg,int s,int rtg,MPI_Comm c,MPI_Status*st){ size_t z=tsize(t)*n; char*tmp=malloc(z?z:1); pack(tmp,b,n,t); MPI_Request a,q; MPI_Irecv(b,n,t,s,rtg,c,&a); MPI_Isend(tmp,z,MPI_BYTE,d,stg,c,&q); S->msg[RQ[q].msg].sig=mksig(n,t); MPI_Wait(&q,NULL); MPI_Wait(&a,st); free(tmp); return 0; }
int MPI_Iprobe(int s,int tag,MPI_Comm c,int*fl,MPI_Status*st){ sw(); Comm*k=gc(c,"MPI_Iprobe"); Post p={s==MPI_ANY_SOURCE?s:wr(k,s,"MPI_Iprobe"),ME,c,tag,-1}; *fl=0; for(int i=0;i<S->nmsg;i++) if(S->msg[i].post<0&&okmatch(&p,&S->msg[i])){ *fl=1; if(st){ st->MPI_SOURCE=lrank(k,S->msg[i].src); st->MPI_TAG=S->msg[i].tag; st->_bytes=S->msg[i].bytes; } break; } if(!*fl) give(pick()); return 0; }
int MPI_Probe(int s,int tag,MPI_Comm c,MPI_Status*st){ sw(); Comm*k=gc(c,"MPI_Probe"); Post p={s==MPI_ANY_SOURCE?s:wr(k,s,"MPI_Probe"),ME,c,tag,-1}; int f=-1;
#define PRB ({ f=-1; for(int i=0;i<S->nmsg;i++) if(S->msg[i].post<0&&okmatch(&p,&S->msg[i])){ f=i; break; } f>=0; })
    BLOCK(PRB,"MPI_Probe"); if(st){ st->MPI_SOURCE=lrank(k,S->msg[f].src); st->MPI_TAG=S->msg[f].tag; st->_bytes=S->msg[f].bytes; } return 0; }
int MPI_Get_count(const MPI_Status*st,MPI_Datatype t,int*n){ size_t z=tsize(t); *n=z?(st->_bytes%z?MPI_UNDEFINED:(int)(st->_bytes/z)):0; return 0; }
int MPI_Get_elements(const MPI_Status*st,MPI_Datatype t,int*n){ return MPI_Get_count(st,t,n); }

/* ---- collectives ---- */
enum { K_BAR=1,K_BCAST,K_RED,K_ALLRED,K_GATH,K_SCAT,K_ALLG,K_A2A,K_SPLIT,K_CART,K_DUP,K_SCAN };
static const char*KN[]={"","barrier","broadcast","reduce","allreduce","gather","scatter","allgather","alltoall","split","cart_create","dup","scan"};
static Coll*enter(MPI_Comm c,int kind,int root,int op,Comm**kk,int*me){ sw(); Comm*k=gc(c,KN[kind]); *kk=k; *me=myrank(k); if(kind!=K_BAR&&root>=k->size) FAILM("%s: root %d not in communicator",KN[kind],root);
    int seq=collseq[c]++; int f=-1; int key=c==MPI_COMM_SELF?-1-ME:c; for(int i=0;i<S->ncoll;i++) if(S->coll[i].ctx==key&&S->coll[i].seq==seq){ f=i; break; }
    if(f<0){ if(S->ncoll>=MAXK) fail(SIMC,"harness","too many collectives"); f=S->ncoll++; Coll*x=&S->coll[f]; memset(x,0,sizeof *x); x->ctx=key; x->seq=seq; x->kind=kind; x->root=root; x->op=op; S->st.colls++; }
    Coll*x=&S->coll[f]; if(x->kind!=kind||x->root!=root||x->op!=op) FAILM("collective mismatch: this rank calls %s(root %d, op %d), another called %s(root %d, op %d)",KN[kind],root,op,KN[x->kind],x->root,x->op);
    return x; }
static void put(Coll*x,int me,const void*b,long n,int t){ if(n<0) FAILM("%s: negative count",KN[x->kind]); x->bytes[me]=tsize(t)*n; x->off[me]=halloc(x->bytes[me]); pack(S->data+x->off[me],b,n,t); }
static void arrive(Coll*x,int me){ x->in[me]=1; x->arrived++; moved(); }
#define ALLIN(x,k) BLOCK((x)->arrived==(k)->size,"%s",KN[(x)->kind])
#define ONEIN(x,r) BLOCK((x)->in[r],"%s",KN[(x)->kind])
int MPI_Barrier(MPI_Comm c){ Comm*k; int me; Coll*x=enter(c,K_BAR,0,0,&k,&me); arrive(x,me); ALLIN(x,k); return 0; }
int MPI_Bcast(void*b,int n,MPI_Datatype t,int root,MPI_Comm c){ Comm*k; int me; ckty(t,"MPI_Bcast"); if(n<0) FAILM("broadcast: negative count"); Coll*x=enter(c,K_BCAST,root,0,&k,&me); if(me==root){ put(x,me,b,n,t); arrive(x,me); if(sch(0.3)) ALLIN(x,k); } else { arrive(x,me); ONEIN(x,root); if(x->bytes[root]!=tsize(t)*n) FAILM("broadcast: root sends %zu bytes, this rank expects %zu",x->bytes[root],tsize(t)*n); unpack(S->data+x->off[root],x->bytes[root],b,n,t); } return 0; }
#define RED(T) do{ T*o=acc; const T*q=in; for(long i=0;i<n;i++) switch(op){ case MPI_SUM:o[i]+=q[i];break; case MPI_PROD:o[i]*=q[i];break; default: bad=1; } }while(0)
#define REDO(T) do{ T*o=acc; const T*q=in; for(long i=0;i<n;i++) switch(op){ case MPI_SUM:o[i]+=q[i];break; case MPI_PROD:o[i]*=q[i];break; case MPI_MIN: if(q[i]<o[i]) o[i]=q[i]; break; case MPI_MAX: if(q[i]>o[i]) o[i]=q[i]; break; case MPI_LAND:o[i]=o[i]&&q[i];break; case MPI_LOR:o[i]=o[i]||q[i];break; default: bad=1; } }while(0)
static void reduce1(void*acc,const void*in,long n,int t,int op){ int bad=0; switch(t){ case MPI_INT:REDO(int);break; case MPI_UNSIGNED:REDO(unsigned);break; case MPI_LONG:case MPI_LONG_LONG:case MPI_INT64_T:REDO(long);break; case MPI_UNSIGNED_LONG:case MPI_UINT64_T:REDO(unsigned long);break; case MPI_FLOAT:REDO(float);break; case MPI_DOUBLE:REDO(double);break; case MPI_LONG_DOUBLE:REDO(long double);break; case MPI_C_FLOAT_COMPLEX:RED(float complex);break; case MPI_C_DOUBLE_COMPLEX:RED(double complex);break; default: bad=1; } if(bad) FAILM("reduction not defined for this type and operation"); }
static void reduceall(Coll*x,Comm*k,void*out,long n,int t,int upto){ size_t z=tsize(t)*n; for(int i=0;i<=upto;i++) if(x->bytes[i]!=z) FAILM("%s: rank %d contributes %zu bytes, this rank %zu",KN[x->kind],i,x->bytes[i],z); int st=(int)((S->st.colls*0+x->seq*7+x->ctx)%(upto+1)); if(st<0) st=0;
    char*acc=malloc(z?z:1); memcpy(acc,S->data+x->off[st],z); for(int i=1;i<=upto;i++){ int r=(st+i)%(upto+1); reduce1(acc,S->data+x->off[r],n,t,x->op); } if(z) memcpy(out,acc,z); free(acc); }
int MPI_Allreduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ Comm*k; int me; ckty(t,"MPI_Allreduce"); Coll*x=enter(c,K_ALLRED,0,op,&k,&me); put(x,me,s==MPI_IN_PLACE?r:s,n,t); arrive(x,me); ALLIN(x,k); reduceall(x,k,r,n,t,k->size-1); return 0; }
int MPI_Reduce(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,int root,MPI_Comm c){ Comm*k; int me; ckty(t,"MPI_Reduce"); Coll*x=enter(c,K_RED,root,op,&k,&me); put(x,me,s==MPI_IN_PLACE?r:s,n,t); arrive(x,me); if(me==root){ ALLIN(x,k); reduceall(x,k,r,n,t,k->size-1); } return 0; }
int MPI_Scan(const void*s,void*r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c){ Comm*k; int me; ckty(t,"MPI_Scan"); Coll*x=enter(c,K_SCAN,0,op,&k,&me); put(x,me,s==MPI_IN_PLACE?r:s,n,t); arrive(x,me); ALLIN(x,k); reduceall(x,k,r,n,t,me); return 0; }
static void getfrom(Coll*x,int from,void*b,long n,int t){ if(x->bytes[from]>tsize(t)*n||(x->bytes[from]!=tsize(t)*n)) FAILM("%s: rank %d contributes %zu bytes, %zu expected",KN[x->kind],from,x->bytes[from],tsize(t)*n); unpack(S->data+x->off[from],x->bytes[from],b,n,t); }
int MPI_Gatherv(const void*s,int n,MPI_Datatype t,void*r,const int*rn,const int*d,MPI_Datatype rt,int root,MPI_Comm c){ Comm*k; int me; Coll*x=enter(c,K_GATH,root,0,&k,&me); if(s!=MPI_IN_PLACE) put(x,me,s,n,t); arrive(x,me); if(me==root){ ALLIN(x,k); for(int i=0;i<k->size;i++) if(!(i==me&&s==MPI_IN_PLACE)) getfrom(x,i,(char*)r+(MPI_Aint)d[i]*ext(rt),rn[i],rt); } return 0; }
int MPI_Gather(const void*s,int n,MPI_Datatype t,void*r,int rn,MPI_Datatype rt,int root,MPI_Comm c){ int a[SIM_MAXR],d[SIM_MAXR]; for(int i=0;i<SIM_MAXR;i++){ a[i]=rn; d[i]=i*rn; } return MPI_Gatherv(s,n,t,r,a,d,rt,root,c); }
int MPI_Allgatherv(const void*s,int n,MPI_Datatype t,void*r,const int*rn,const int*d,MPI_Datatype rt,MPI_Comm c){ Comm*k; int me; ckty(rt,"MPI_Allgatherv"); Coll*x=enter(c,K_ALLG,0,0,&k,&me); if(s==MPI_IN_PLACE) put(x,me,(char*)r+(MPI_Aint)d[me]*ext(rt),rn[me],rt); else put(x,me,s,n,t); arrive(x,me); ALLIN(x,k); for(int i=0;i<k->size;i++) if(!(i==me&&s==MPI_IN_PLACE)) getfrom(x,i,(char*)r+(MPI_Aint)d[i]*ext(rt),rn[i],rt); return 0; }
int MPI_Allgather(const void*s,int n,MPI_Datatype t,void*r,int rn,MPI_Datatype rt,MPI_Comm c){ int a[SIM_MAXR],d[SIM_MAXR]; for(int i=0;i<SIM_MAXR;i++){ a[i]=rn; d[i]=i*rn; } return MPI_Allgatherv(s,n,t,r,a,d,rt,c); }
int MPI_Scatterv(const void*s,const int*sn,const int*d,MPI_Datatype t,void*r,int n,MPI_Datatype rt,int root,MPI_Comm c){ Comm*k; int me; Coll*x=enter(c,K_SCAT,root,0,&k,&me); if(me==root){ size_t z=tsize(t); for(int i=0;i<k->size;i++){ x->a[i]=sn[i]; } size_t tot=0; for(int i=0;i<k->size;i++) tot+=z*sn[i]; x->bytes[me]=tot; x->off[me]=halloc(tot); size_t o=x->off[me]; for(int i=0;i<k->size;i++){ pack(S->data+o,(char*)s+(MPI_Aint)d[i]*ext(t),sn[i],t); x->b[i]=o-x->off[me]; x->a[i]=z*sn[i]; o+=z*sn[i]; } arrive(x,me); if(r==MPI_IN_PLACE) return 0; } else { arrive(x,me); ONEIN(x,root); }
    if((size_t)x->a[me]!=tsize(rt)*n) FAILM("scatter: %d bytes sent, %zu expected",x->a[me],tsize(rt)*n); unpack(S->data+x->off[root]+x->b[me],x->a[me],r,n,rt); return 0; }
int MPI_Scatter(const void*s,int n,MPI_Datatype t,void*r,int rn,MPI_Datatype rt,int root,MPI_Comm c){ int a[SIM_MAXR],d[SIM_MAXR]; for(int i=0;i<SIM_MAXR;i++){ a[i]=n; d[i]=i*n; } return MPI_Scatterv(s,a,d,t,r,rn,rt,root,c); }
int MPI_Alltoall(const void*s,int n,MPI_Datatype t,void*r,int rn,MPI_Datatype rt,MPI_Comm c){ Comm*k; int me; Coll*x=enter(c,K_A2A,0,0,&k,&me); put(x,me,s==MPI_IN_PLACE?r:s,(long)n*k->size,t); arrive(x,me); ALLIN(x,k); for(int i=0;i<k->size;i++) unpack(S->data+x->off[i]+tsize(t)*n*me,tsize(t)*n,(char*)r+(MPI_Aint)i*rn*ext(rt),rn,rt); return 0; }
static MPI_Comm newcomm(long pk,int color){ for(int i=3;i<S->ncomm;i++) if(S->comm[i].used&&S->comm[i].pk==pk&&S->comm[i].color==color) return i; if(S->ncomm>=MAXC) FAILM("communicators exhausted (%d created and %d in use)",S->ncomm,S->ncomm); int i=S->ncomm++; memset(&S->comm[i],0,sizeof(Comm)); S->comm[i].used=1; S->comm[i].pk=pk; S->comm[i].color=color; S->st.comms++; return i; }
int MPI_Comm_split(MPI_Comm c,int color,int key,MPI_Comm*o){ Comm*k; int me; Coll*x=enter(c,K_SPLIT,0,0,&k,&me); x->a[me]=color; x->b[me]=key; arrive(x,me); ALLIN(x,k); if(color==MPI_UNDEFINED){ *o=MPI_COMM_NULL; return 0; }
    int n=newcomm((long)(x-S->coll)+1,color); Comm*q=&S->comm[n]; if(!q->size){ int r[SIM_MAXR],m=0; for(int i=0;i<k->size;i++) if(x->a[i]==color) r[m++]=i; for(int i=1;i<m;i++) for(int j=i;j>0&&x->b[r[j]]<x->b[r[j-1]];j--){ int z=r[j]; r[j]=r[j-1]; r[j-1]=z; } for(int i=0;i<m;i++) q->ranks[i]=k->ranks[r[i]]; q->size=m; } *o=n; collseq[n]=0; return 0; }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm*o){ Comm*k; int me; Coll*x=enter(c,K_DUP,0,0,&k,&me); arrive(x,me); ALLIN(x,k); int n=newcomm((long)(x-S->coll)+1,0); Comm*q=&S->comm[n]; if(!q->size){ memcpy(q->ranks,k->ranks,sizeof k->ranks); q->size=k->size; q->ndims=k->ndims; memcpy(q->dims,k->dims,sizeof k->dims); memcpy(q->per,k->per,sizeof k->per); } *o=n; collseq[n]=0; return 0; }
int MPI_Comm_free(MPI_Comm*c){ sw(); Comm*k=gc(*c,"MPI_Comm_free"); if(*c<=2) FAILM("MPI_Comm_free of a predefined communicator"); k->freed[ME]=1; moved(); *c=MPI_COMM_NULL; return 0; }
int MPI_Cart_create(MPI_Comm c,int nd,const int*d,const int*p,int re,MPI_Comm*o){ Comm*k; int me; Coll*x=enter(c,K_CART,0,0,&k,&me); arrive(x,me); ALLIN(x,k); int t=1; for(int i=0;i<nd;i++) t*=d[i]; if(t>k->size) FAILM("MPI_Cart_create: grid larger than the communicator"); int n=newcomm((long)(x-S->coll)+1,0); Comm*q=&S->comm[n]; if(!q->size){ memcpy(q->ranks,k->ranks,sizeof k->ranks); q->size=t; q->ndims=nd; for(int i=0;i<nd;i++){ q->dims[i]=d[i]; q->per[i]=p[i]; } } collseq[n]=0; *o=me<t?n:MPI_COMM_NULL; return 0; }
static void co(Comm*k,int r,int*x){ for(int i=k->ndims-1;i>=0;i--){ x[i]=r%k->dims[i]; r/=k->dims[i]; } }
int MPI_Cart_coords(MPI_Comm c,int r,int n,int*x){ Comm*k=gc(c,"MPI_Cart_coords"); int y[4]; if(r<0||r>=k->size) FAILM("MPI_Cart_coords: rank %d",r); co(k,r,y); for(int i=0;i<n&&i<k->ndims;i++) x[i]=y[i]; return 0; }
int MPI_Cart_rank(MPI_Comm c,const int*x,int*r){ Comm*k=gc(c,"MPI_Cart_rank"); int z=0; for(int i=0;i<k->ndims;i++){ int v=x[i]; if(k->per[i]) v=((v%k->dims[i])+k->dims[i])%k->dims[i]; if(v<0||v>=k->dims[i]) FAILM("MPI_Cart_rank: coordinate out of range"); z=z*k->dims[i]+v; } *r=z; return 0; }
int MPI_Cart_shift(MPI_Comm c,int dir,int disp,int*s,int*d){ Comm*k=gc(c,"MPI_Cart_shift"); if(dir<0||dir>=k->ndims) FAILM("MPI_Cart_shift: direction"); int x[4],y[4]; co(k,myrank(k),x); memcpy(y,x,sizeof x); y[dir]=x[dir]+disp; if(!k->per[dir]&&(y[dir]<0||y[dir]>=k->dims[dir])) *d=MPI_PROC_NULL; else MPI_Cart_rank(c,y,d); y[dir]=x[dir]-disp; if(!k->per[dir]&&(y[dir]<0||y[dir]>=k->dims[dir])) *s=MPI_PROC_NULL; else MPI_Cart_rank(c,y,s); return 0; }
int MPI_Cart_get(MPI_Comm c,int n,int*d,int*p,int*x){ Comm*k=gc(c,"MPI_Cart_get"); int y[4]; co(k,myrank(k),y); for(int i=0;i<n&&i<k->ndims;i++){ d[i]=k->dims[i]; p[i]=k->per[i]; x[i]=y[i]; } return 0; }
int MPI_Cartdim_get(MPI_Comm c,int*n){ *n=gc(c,"MPI_Cartdim_get")->ndims; return 0; }
int MPI_Cart_sub(MPI_Comm c,const int*keep,MPI_Comm*o){ Comm*k=gc(c,"MPI_Cart_sub"); int x[4]; co(k,myrank(k),x); int col=0,key=0; for(int i=0;i<k->ndims;i++) if(keep[i]) key=key*k->dims[i]+x[i]; else col=col*k->dims[i]+x[i]; MPI_Comm_split(c,col,key,o); Comm*q=&S->comm[*o]; int m=0; for(int i=0;i<k->ndims;i++) if(keep[i]){ q->dims[m]=k->dims[i]; q->per[m++]=k->per[i]; } q->ndims=m; return 0; }
int MPI_Dims_create(int n,int nd,int*d){ int s=1; if(nd==2){ for(int i=1;i*i<=n;i++) if(n%i==0) s=i; d[0]=n/s; d[1]=s; } else d[0]=n; return 0; }
int MPI_Init(int*a,char***b){ return 0; } int MPI_Init_thread(int*a,char***b,int r,int*p){ *p=r; return 0; } int MPI_Finalize(void){ return 0; } int MPI_Initialized(int*f){ *f=1; return 0; } int MPI_Finalized(int*f){ *f=0; return 0; }
int MPI_Abort(MPI_Comm c,int e){ _exit(1); } double MPI_Wtime(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
int MPI_Error_string(int e,char*s,int*n){ *n=snprintf(s,MPI_MAX_ERROR_STRING,"error %d",e); return 0; } int MPI_Get_processor_name(char*s,int*n){ strcpy(s,"sim"); *n=3; return 0; }

void sim_mark(void){ for(int i=0;i<S->ncomm;i++) S->comm[i].keep=1; }
int scalapack_live(void);
void sim_finish(void){
    S->atend[ME]=1; moved(); int all; 
#define EVERY ({ all=1; for(int i=0;i<S->nr;i++) all&=S->atend[i]; all; })
    BLOCK(EVERY,"the end of the case");
    for(int i=1;i<4096;i++) if(RQ[i].kind) FAILM("a %s request was never completed",RQ[i].kind==1?"send":"receive");
    if(scalapack_live()) FAILM("%d BLACS grids or system handles were never released",scalapack_live());
    if(tylive) FAILM("%d data types were never freed",tylive);
    for(int i=0;i<S->nmsg;i++){ Msg*m=&S->msg[i]; if(!m->consumed) FAILM("message from rank %d to rank %d tag %d (%zu bytes) was never received",m->src,m->dst,m->tag,m->bytes); }
    for(int i=0;i<S->ncoll;i++){ Coll*x=&S->coll[i]; int sz=x->ctx<0?1:S->comm[x->ctx].size; if(x->arrived!=sz) FAILM("%s was entered by %d of %d ranks",KN[x->kind],x->arrived,sz); }
    for(int i=3;i<S->ncomm;i++) if(!S->comm[i].keep&&!S->comm[i].freed[ME]){ int mem=0; for(int j=0;j<S->comm[i].size;j++) mem|=S->comm[i].ranks[j]==ME; if(mem) fail(SIMC?SIMC:&dummy,"leak","a communicator created by the library was never freed"); }
}
