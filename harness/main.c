/* Driver: runs cases [from,to) step k, each in a forked child, classifies the outcome, writes a JSON-lines result file. */
#include "mon.h"
extern bml_distribution_mode_t DM;
typedef struct { int op; int w; } Wt;
static Wt SETUP[64], OWN[64]; static int nsetup, nown; static char OWNNAMES[2000];
static const char *a_setup="import:6", *a_own="import:1", *a_out="/dev/stdout", *a_tmp="/tmp", *a_salt="x";
static int a_types=15, a_precs=15, a_mmode=0, a_nmax=20, a_nmin=0, a_min=2, a_max=6, a_flags=0, a_verbose=0, a_timeout=20, a_oom=0, a_maxthr=3, a_forceT=0, a_forceP=0, a_trace=0;
static long a_from=0,a_to=100,a_step=1; static uint64_t a_seed=1;
static long a_only=-1; static long a_failat=0;

static int parse(const char *s,Wt *w){ int n=0; char b[4000]; snprintf(b,sizeof b,"%s",s); for(char*t=strtok(b," ");t;t=strtok(NULL," ")){ char*c=strchr(t,':'); int wt=1; if(c){*c=0;wt=atoi(c+1);} int f=-1; for(int i=0;i<NOPS;i++) if(!strcmp(OPS[i].name,t)&&OPS[i].f) f=i; if(f<0){ fprintf(stderr,"unknown op %s\n",t); exit(2);} w[n].op=f; w[n].w=wt; n++; } return n; }
static int choose(Ctx*c,Wt*w,int n){ int s=0; for(int i=0;i<n;i++) s+=w[i].w; int x=rint_(&c->r,0,s-1); for(int i=0;i<n;i++){ x-=w[i].w; if(x<0) return w[i].op; } return w[0].op; }
int is_own(const char*nm){ char k[64]; snprintf(k,sizeof k," %s ",nm); return strstr(OWNNAMES,k)!=NULL; }
#ifdef SHIM
extern void shim_config(uint64_t seed,int mode,int threads);
extern struct { long regions, members, decisions, sync, preempt; uint64_t hash; } shim_stat;
static int a_shim=0;
#endif

#ifdef MPISIM
#include "mpisim.h"
static int a_mp=1, MPRANK=0, MPR=1; extern bml_distribution_mode_t DM; void mp_begin(Ctx*c); void mp_end(Ctx*c);
static int ranks_of(long no){ uint64_t h=(uint64_t)no*0x9E3779B97F4A7C15ull+a_seed; h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32; static const int r[]={4,4,4,9,4,4,9,1,4,4,9,9,4,16,4,9}; int k=r[h%16]; return k; }
#endif
static void run_case(long no,int threads_override){
    Ctx C; memset(&C,0,sizeof C); Ctx*c=&C; CURCTX=c; 
    uint64_t h=a_seed*0x9E3779B97F4A7C15ull; for(const char*q=a_salt;*q;q++) h=(h^(unsigned char)*q)*1099511628211ull; h^=(uint64_t)no*0xD1B54A32D192ED03ull; c->r.s=h; rnd64(&c->r);
    static const bml_matrix_type_t ty[]={dense,ellpack,csr,ellblock}; bml_matrix_type_t en[4]; int ne=0; for(int i=0;i<4;i++) if(a_types>>i&1) en[ne++]=ty[i]; 
    int pe[4],np=0; for(int i=0;i<4;i++) if(a_precs>>i&1) pe[np++]=i+1;
    c->t=en[no%ne]; c->p=(bml_matrix_precision_t)pe[(no/ne)%np]; c->eps=epsof(c->p); c->verbose=a_verbose; c->mmode=a_mmode;
    snprintf(c->tmpdir,sizeof c->tmpdir,"%s",a_tmp);
    int nm=a_nmax; int z=rint_(&c->r,0,9); if(z==0) c->N=rint_(&c->r,1,2); else if(z<=5) c->N=rint_(&c->r,2,nm<10?nm:10); else c->N=rint_(&c->r,3,nm<3?3:nm); if(a_nmin>0) c->N=rint_(&c->r,a_nmin,nm); if(c->N>nm) c->N=nm;
    c->vmode=rint_(&c->r,0,6); if(getenv("VM")) c->vmode=atoi(getenv("VM")); c->M=c->N;
    int mixed=c->mmode==3; if(mixed) c->mmode=2; if(c->mmode==1&&CH(c,2)) c->M=rint_(&c->r,1,c->N); if(c->mmode==2) c->M=rint_(&c->r,1,c->N>1?c->N-1:1);
    if(c->M==c->N&&c->mmode==1) c->mmode=0;
    if(mixed&&c->t!=ellpack&&c->t!=csr) mixed=0; /* every matrix has a row capacity of its own */
#define MIX() do { if(mixed) c->M=rint_(&c->r,1,c->N); } while(0)
    c->threads=rint_(&c->r,1,a_maxthr); 
#ifdef SHIM
    if(CH(c,3)) c->threads=rint_(&c->r,1,c->N+3<33?c->N+3:33); if(threads_override) c->threads=threads_override; shim_config(h^0x5bd1e995u,a_shim,c->threads);
#endif
    omp_set_num_threads(c->threads);
    int LN=c->N; c->no=no;
#ifndef MPISIM
    { static const bml_distribution_mode_t dm[]={distributed,sequential,sequential,sequential}; DM=dm[rint_(&c->r,0,3)]; }
#else
    c->rank=MPRANK; c->nranks=MPR; SIMC=c; HISTQUIET=MPRANK>0; sim_start(MPRANK);
    if(a_mp==1){ int p=1; while(p*p<MPR) p++; c->dist=p; DM=distributed; int n=(c->N+p-1)/p; if(n*p>NMAX-2) n=(NMAX-2)/p; int m=c->mmode?rint_(&c->r,1,n):n; if(m==n) c->mmode=0; c->N=n*p; c->M=m*p; LN=n; }
#endif
#ifdef MPISIM
    { extern int ANYREF; ANYREF=c->mmode!=0; }
#endif
    if(c->t==ellblock){ if(CH(c,2)){ int nb=0,s=0,bs[NMAX],bm=CH(c,6)?LN:6; while(s<LN){ int q=rint_(&c->r,1,bm); if(q>LN-s) q=LN-s; bs[nb++]=q; s+=q; } int mb=nb; if(c->mmode) mb=rint_(&c->r,1,nb); bml_set_block_sizes(bs,nb,mb); } }
    snprintf((char*)SH->op,48,"start"); 
    if(!HISTQUIET){ int n=snprintf(SH->history,sizeof SH->history,"case %ld %s/%s N=%d M=%d threads=%d values=%d",no,tname(c->t),pname(c->p),c->N,c->M,c->threads,c->vmode); if(c->nranks) n+=snprintf(SH->history+n,100," ranks=%d%s",c->nranks,c->dist?" distributed":""); SH->history[n++]='\n'; SH->history[n]=0; SH->hlen=n; }
    if(a_verbose) fputs(SH->history,stderr);
    track_reset();
#ifdef MPISIM
    mp_begin(c);
#endif
    int want=rint_(&c->r,1,4); for(int q=0;q<want;q++){ int o=choose(c,SETUP,nsetup>3?3:nsetup); MIX(); OPS[o].f(c); }
    int nops=rint_(&c->r,a_min,a_max); int owned=0;
    for(int q=0;q<nops;q++){ int o; if(CH(c,3)&&nsetup) o=choose(c,SETUP,nsetup); else o=choose(c,OWN,nown);
        for(int k=0;k<MAXSLOT;k++) if(c->s[k].live){ int n=c->s[k].N; long double m=0; for(int e=0;e<n*n;e++){ long double x=cabsl(c->s[k].v[e]); if(x>m) m=x; } if(m>1e9L) drop_slot(c,k); } /* stay far from overflow */
        int live=0; for(int k=0;k<MAXSLOT;k++) live+=c->s[k].live; MIX(); if(!live) OPS[SETUP[0].op].f(c);
        long before=SH->ops_total; OPS[o].f(c); if(SH->ops_total>before&&is_own(OPS[o].name)) owned++;
        if((a_flags&PF_READBACK)||CH(c,4)){ for(int k=0;k<MAXSLOT;k++) if(c->s[k].live){ op_begin(c,"readback","s%d",k); readback(c,&c->s[k]); op_end(c);} }
    }
    int nontriv=0; uint64_t hh=1469598103934665603ull; for(int k=0;k<MAXSLOT;k++) if(c->s[k].live){ for(int e=0;e<c->s[k].N*c->s[k].N;e++) if(c->s[k].v[e]!=0){nontriv=1;break;} hh=(hh^c->s[k].hash)*1099511628211ull; }
    int ord[MAXSLOT]; for(int k=0;k<MAXSLOT;k++) ord[k]=k; for(int k=MAXSLOT-1;k>0;k--){ int j=rint_(&c->r,0,k); int x=ord[k]; ord[k]=ord[j]; ord[j]=x; }
    for(int k=0;k<MAXSLOT;k++) if(c->s[ord[k]].live){ drop_slot(c,ord[k]); verify_const(c,0); }
    { op_begin(c,"release","all"); char b[600]; 
#ifdef MPISIM
      mp_end(c);
#endif
      track_mark_safe(bml_get_block_sizes(LN,LN)); /* the cached default partition is not a matrix */
#ifndef SHIM
      if(track_live(b,sizeof b)>0){ /* attribute to the allocating operation */
        char*f=strstr(b,"from "); char nm2[48]="?"; if(f) sscanf(f,"from %47[^;]",nm2); snprintf((char*)SH->op,48,"%s",nm2); fail(c,"leak","memory still allocated after everything was released: %s",b); }
#endif
    }
#ifdef SHIM
    SH->regions+=shim_stat.regions; SH->members+=shim_stat.members; SH->decisions+=shim_stat.decisions; SH->syncs+=shim_stat.sync; SH->preempts+=shim_stat.preempt; if(a_shim==1){ hh=(hh^shim_stat.hash)*1099511628211ull; if(!shim_stat.decisions) nontriv=0; } else if(!shim_stat.regions) nontriv=0;
#endif
#ifdef MPISIM
    SimStat ms=sim_stats(); hh=(hh^ms.hash)*1099511628211ull; if(MPRANK==0){ SH->regions+=ms.msgs; SH->members+=ms.colls; SH->decisions+=ms.switches; SH->syncs+=ms.sync; SH->preempts+=ms.delayed; }
    if(MPRANK){ sim_exit(); _exit(0); }
#endif
    SH->owned_done+=owned; if(owned&&nontriv){ for(const char*q=SH->history;*q;q++) hh=(hh^(unsigned char)*q)*1099511628211ull; uint32_t kk=(uint32_t)(hh^(hh>>32)); if(SH->nkeys<MAXKEYS) SH->keys[SH->nkeys++]=kk; SH->nontriv++; }
    SH->done=1; fflush(NULL);
#ifdef MPISIM
    sim_exit();
#endif
    _exit(0);
}
static void jesc(FILE*f,const char*s){ fputc('"',f); for(;*s;s++){ unsigned char ch=*s; if(ch=='"'||ch=='\\') fprintf(f,"\\%c",ch); else if(ch=='\n') fputs("\\n",f); else if(ch<32||ch>126) fputc('?',f); else fputc(ch,f);} fputc('"',f); }
static char errbuf[6000];
static void read_err(int fd){ errbuf[0]=0; int n=pread(fd,errbuf,sizeof errbuf-1,0); if(n<0)n=0; errbuf[n]=0; }
typedef struct { char cls[24]; char op[48]; char text[2600]; } Res;
/* 0 ok, 1 refused as allowed, 2 failure (filled), */
static int spawn(long no,long failat,int errfd,Res*r,int thr){
    SH->op[0]=0; SH->detail[0]=0; SH->in_lib=0; SH->refuse_ok=0; SH->refuse_must=0; SH->done=0; SH->nfail=0; SH->hlen=0; SH->history[0]=0; SH->alloc_seen=0; SH->alloc_fail_at=failat; SH->alloc_failed=0;
    if(errfd>=0){ ftruncate(errfd,0); lseek(errfd,0,SEEK_SET); }
    int st;
#ifdef MPISIM
    int R=ranks_of(no); pid_t pp[SIM_MAXR]; uint64_t sh=a_seed*0x2545F4914F6CDD1Dull^(uint64_t)no*0x9E3779B97F4A7C15ull; sim_reset(R,sh); fflush(NULL);
    for(int k=0;k<R;k++){ pp[k]=fork(); if(pp[k]<0){ perror("fork"); exit(2);} if(!pp[k]){ if(errfd>=0){ dup2(errfd,2); dup2(errfd,1); } alarm(a_timeout); MPRANK=k; MPR=R; run_case(no,thr); _exit(0); } }
    int left=R; st=0; int bad=0; while(left){ int s; pid_t q=wait(&s); if(q<0){ if(errno==EINTR) continue; break; } left--; for(int k=0;k<R;k++) if(pp[k]==q) pp[k]=0;
        if(!bad&&!(WIFEXITED(s)&&WEXITSTATUS(s)==0)){ bad=1; st=s; for(int k=0;k<R;k++) if(pp[k]) kill(pp[k],SIGKILL); } }
#else
    fflush(NULL); pid_t p=fork(); if(p<0){ perror("fork"); exit(2);} if(!p){ if(errfd>=0){ dup2(errfd,2); dup2(errfd,1); } alarm(a_timeout); run_case(no,thr); _exit(0); }
    while(waitpid(p,&st,0)<0&&errno==EINTR){}
#endif
    if(errfd>=0) read_err(errfd); else errbuf[0]=0;
    memset(r,0,sizeof *r); snprintf(r->op,48,"%s",(char*)SH->op);
    if(SH->nfail){ snprintf(r->cls,24,"%s",SH->fclass); snprintf(r->op,48,"%s",SH->fop); snprintf(r->text,sizeof r->text,"%s",SH->ftext); return 2; }
    if(WIFEXITED(st)&&WEXITSTATUS(st)==0&&SH->done){ if(failat>0&&SH->alloc_failed){ snprintf(r->cls,24,"oom"); snprintf(r->text,sizeof r->text,"request %ld for memory failed and nothing was reported",failat); return 2; } return 0; }
    int silent=errfd>=0&&!errbuf[strspn(errbuf," \n\t\r")];
    if(failat>0&&SH->alloc_failed){ if(WIFEXITED(st)&&WEXITSTATUS(st)==1&&!silent) return 1; snprintf(r->cls,24,"oom"); snprintf(r->text,sizeof r->text,"request %ld for memory failed; instead of a reported error: %s %d; %.1500s",failat,WIFSIGNALED(st)?"signal":"exit status",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st),errbuf); return 2; }
    if(WIFEXITED(st)&&WEXITSTATUS(st)==1){ if(SH->refuse_ok&&silent){ snprintf(r->cls,24,"value"); snprintf(r->text,sizeof r->text,"the program was stopped without an error message; args %.600s",(char*)SH->detail); return 2; } if(SH->refuse_ok) return 1; snprintf(r->cls,24,"refuse"); snprintf(r->text,sizeof r->text,"a valid call was stopped with an error: %.300s; args %.600s",errbuf,(char*)SH->detail); return 2; }
    if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGABRT&&SH->refuse_ok&&!strstr(errbuf,"Sanitizer")&&strstr(errbuf,"ssertion")) return 1;
    if(WIFSIGNALED(st)&&(WTERMSIG(st)==SIGALRM||WTERMSIG(st)==SIGXCPU)){ snprintf(r->cls,24,"hang"); snprintf(r->text,sizeof r->text,"no return within %d s; args %.800s",a_timeout,(char*)SH->detail); return 2; }
    if(strstr(errbuf,"ThreadSanitizer")||(WIFEXITED(st)&&WEXITSTATUS(st)==97)){ char*s=strstr(errbuf,"WARNING: "); if(!s) s=strstr(errbuf,"ERROR: "); if(!s) s=errbuf; snprintf(r->cls,24,"race"); snprintf(r->text,sizeof r->text,"%.1900s; args %.500s",s,(char*)SH->detail); return 2; }
    snprintf(r->cls,24,SH->in_lib?"mem":"harness"); char*s=strstr(errbuf,"ERROR: "); if(!s) s=strstr(errbuf,"runtime error"); if(!s) s=strstr(errbuf,"WARNING: "); if(!s) s=errbuf;
    if(!SH->in_lib&&(WIFEXITED(st)&&(WEXITSTATUS(st)==99||WEXITSTATUS(st)==98))) snprintf(r->cls,24,"mem");
    snprintf(r->text,sizeof r->text,"%s %d: %.1700s; args %.500s",WIFSIGNALED(st)?"signal":"exit status",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st),s,(char*)SH->detail); return 2; }
/* which places have had a request refused so far: the rarest are tried first */
#define SCAP 32768
static uint32_t skey[SCAP]; static long scnt[SCAP], nsites;
static long*site_slot(uint32_t s){ uint32_t i=(s*2654435761u)>>17; s|=1; while(skey[i]&&skey[i]!=s) i=(i+1)%SCAP; if(!skey[i]){ if(nsites>SCAP-64) return &scnt[i]; skey[i]=s; } return &scnt[i]; }
static void site_done(uint32_t s){ if((*site_slot(s))++==0) nsites++; }
static long site_pick(uint32_t*st,long n,uint64_t h){ long best=-1,k=1; for(long q=0;q<n;q++){ long i=(long)((h+(uint64_t)q)%n); long v=*site_slot(st[i]); if(best<0||v<best){ best=v; k=i+1; if(v==0) break; } } return k; }
int main(int ac,char**av){
    for(int i=1;i<ac;i+=2){ const char*k=av[i],*v=i+1<ac?av[i+1]:"";
#define S(n,x) if(!strcmp(k,"--" n)){ x=v; continue; }
#define I(n,x) if(!strcmp(k,"--" n)){ x=strtol(v,NULL,10); continue; }
        S("setup",a_setup) S("own",a_own) S("out",a_out) S("tmp",a_tmp) S("salt",a_salt) I("types",a_types) I("precs",a_precs) I("mmode",a_mmode) I("nmax",a_nmax) I("nmin",a_nmin) I("min",a_min) I("max",a_max) I("flags",a_flags) I("verbose",a_verbose) I("timeout",a_timeout) I("oom",a_oom) I("from",a_from) I("to",a_to) I("step",a_step) I("seed",a_seed) I("case",a_only) I("failat",a_failat) I("maxthr",a_maxthr)
#ifdef SHIM
        I("shim",a_shim)
#endif

#ifdef MPISIM
        I("mp",a_mp)
#endif
        fprintf(stderr,"unknown option %s\n",k); return 2; }
    nsetup=parse(a_setup,SETUP); nown=parse(a_own,OWN); strcpy(OWNNAMES," "); for(int i=0;i<nown;i++){ strcat(OWNNAMES,OPS[OWN[i].op].name); strcat(OWNNAMES," "); }
    SH=mmap(NULL,sizeof *SH,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset(SH,0,sizeof *SH); SH->alloc_fail_at=-1;
    if(a_nmax>NMAX-2) a_nmax=NMAX-2;
#ifdef MPISIM
    sim_create();
#endif
    FILE*out=fopen(a_out,"w"); if(!out){ perror(a_out); return 2; }
    if(a_only>=0){ Res r; int rc=spawn(a_only,a_failat>0?a_failat:-1,-1,&r,0); fprintf(stderr,"%s",SH->history); if(rc==2){ fprintf(stderr,"FAIL class=%s op=%s: %s\n",r.cls,r.op,r.text); return 3; } fprintf(stderr,"outcome: %s\n",rc?"refused (allowed)":"ok"); return 0; }
    int nul=open("/dev/null",O_WRONLY); dup2(nul,1); char fn[300]; snprintf(fn,sizeof fn,"%s/err%d",a_tmp,(int)getpid()); int errfd=open(fn,O_RDWR|O_CREAT|O_TRUNC|O_APPEND,0600); unlink(fn);
    long cases=0,refused=0,fails=0,oomruns=0,oomrefused=0,hangs=0; 
    for(long no=a_from;no<a_to;no+=a_step){ Res r; cases++;
        int rc=spawn(no,a_oom?0:-1,errfd,&r,0);
        if(rc==2&&!strcmp(r.cls,"hang")){ hangs++; int o=a_timeout; a_timeout*=2; rc=spawn(no,a_oom?0:-1,errfd,&r,0); a_timeout=o; if(hangs>4&&rc==2) { /* do not spend the whole budget */ fprintf(out,"{\"t\":\"fail\",\"case\":%ld,\"cls\":\"hang\",\"op\":\"%s\",\"text\":\"repeated hangs\",\"failat\":0,\"hist\":\"\"}\n",no,r.op); break; } }
#ifdef SHIM
        if(rc==2&&a_shim==1){ Res q=r; char hist[sizeof SH->history]; strcpy(hist,SH->history); int r1=spawn(no,-1,errfd,&q,1); strcpy(SH->history,hist); if(r1==2) snprintf(r.cls,24,"sequential"); /* fails without any concurrency as well: some other property's matter */ }
#endif
        if(rc==1) refused++;
        if(rc==0&&SH->sample[0]==0&&SH->hlen>200) snprintf(SH->sample,sizeof SH->sample,"%s",SH->history);
        long fa=0;
        if(rc==0&&a_oom){ long seen=SH->alloc_seen; long lim=seen<16384?seen:16384; static uint32_t st[16384]; memcpy(st,SH->alloc_site,sizeof(uint32_t)*lim); for(int q=0;q<a_oom&&q<seen;q++){ uint64_t h=(uint64_t)no*7919+q*104729+a_seed*31; h^=h>>13; h*=0x9E3779B97F4A7C15ull; long k=seen<=a_oom?q+1:q%4==3?1+(long)((h>>20)%seen):site_pick(st,lim,h>>20); if(k<=lim) site_done(st[k-1]); oomruns++; rc=spawn(no,k,errfd,&r,0); fa=k; if(rc==1) { oomrefused++; rc=0; } if(rc==2) break; } }
        if(rc==2){ fails++; if(fails<=40){ fprintf(out,"{\"t\":\"fail\",\"case\":%ld,\"failat\":%ld,\"cls\":\"%s\",\"op\":\"%s\",\"text\":",no,fa,r.cls,r.op); jesc(out,r.text); fputs(",\"hist\":",out); jesc(out,SH->history); fputs("}\n",out); fflush(out); } }
    }
    fprintf(out,"{\"t\":\"sum\",\"cases\":%ld,\"refused\":%ld,\"fails\":%ld,\"ops\":%ld,\"checks\":%ld,\"elems\":%ld,\"owned\":%ld,\"nontriv\":%ld,\"overflow_calls\":%ld,\"oomruns\":%ld,\"oomrefused\":%ld,\"accepted\":%ld,\"regions\":%ld,\"members\":%ld,\"decisions\":%ld,\"syncs\":%ld,\"preempts\":%ld,\"sites\":%ld,\"opcount\":{",cases,refused,fails,SH->ops_total,SH->checks_total,SH->elems_total,SH->owned_done,SH->nontriv,SH->nover,oomruns,oomrefused,SH->nhostile_ok,SH->regions,SH->members,SH->decisions,SH->syncs,SH->preempts,nsites);
    int f=0; for(int i=0;i<NOPS;i++) if(SH->op_count[i]){ fprintf(out,"%s\"%s\":%ld",f?",":"",OPS[i].name,SH->op_count[i]); f=1; } fputs("},\"sample\":",out); jesc(out,SH->sample); fputs(",\"keys\":[",out); for(uint32_t i=0;i<SH->nkeys;i++) fprintf(out,"%s%u",i?",":"",SH->keys[i]); fputs("]}\n",out); fclose(out); return 0; }
