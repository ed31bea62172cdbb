/* Stand-ins for the few BLACS/ScaLAPACK entry points the library calls: block-cyclic eigenvalue problem solved redundantly
   on every rank with LAPACK, reading only what the documented contract allows (one triangle) and destroying the input. */
#include "../mon.h"
#include "mpi.h"
#include "mpisim.h"
#include <complex.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern Ctx *SIMC;
#define MAXG 256
static struct { int used; MPI_Comm c; int pr,pc; } G[MAXG]; static struct { int used; MPI_Comm c; } H[MAXG];
int scalapack_live(void){ int n=0; for(int i=0;i<MAXG;i++) n+=G[i].used+H[i].used; return n; }
#define BAD(...) fail(SIMC,"message",__VA_ARGS__)
int Csys2blacs_handle(MPI_Comm c){ for(int i=0;i<MAXG;i++) if(H[i].used&&H[i].c==c) return i; for(int i=0;i<MAXG;i++) if(!H[i].used){ H[i].used=1; H[i].c=c; return i; } BAD("BLACS system handles exhausted"); return -1; }
void Cfree_blacs_system_handle(int h){ if(h<0||h>=MAXG||!H[h].used) BAD("BLACS system handle freed that is not live"); H[h].used=0; }
void Cblacs_gridinit(int *ctx,char order[],int nr,int nc){ if(*ctx<0||*ctx>=MAXG||!H[*ctx].used) BAD("BLACS grid on an invalid system handle"); int n; MPI_Comm_size(H[*ctx].c,&n); if(nr*nc>n) BAD("BLACS grid larger than the communicator"); if(order[0]!='R'&&order[0]!='r'){ BAD("only row-ordered grids are modelled"); } for(int i=0;i<MAXG;i++) if(!G[i].used){ G[i].used=1; MPI_Comm_dup(H[*ctx].c,&G[i].c); G[i].pr=nr; G[i].pc=nc; *ctx=i; return; } BAD("BLACS contexts exhausted"); }
void Cblacs_gridinfo(int ctx,int*nr,int*nc,int*r,int*c){ if(ctx<0||ctx>=MAXG||!G[ctx].used) BAD("information of a BLACS grid that is not live"); int me; MPI_Comm_rank(G[ctx].c,&me); *nr=G[ctx].pr; *nc=G[ctx].pc; *r=me / *nc; *c=me % *nc; }
void Cblacs_gridexit(int ctx){ if(ctx<0||ctx>=MAXG||!G[ctx].used) BAD("exit of a BLACS grid that is not live"); MPI_Comm_free(&G[ctx].c); G[ctx].used=0; }
int numroc_(int*n,int*nb,int*ip,int*is,int*np){ int d=(*np+*ip-*is)%*np,nblk=*n / *nb,r=nblk / *np * *nb,x=nblk%*np; if(d<x) r+=*nb; else if(d==x) r+=*n%*nb; return r; }
void dsyev_(const char*,const char*,int*,double*,int*,double*,double*,int*,int*); void zheev_(const char*,const char*,int*,double complex*,int*,double*,double complex*,int*,double*,int*);
static double complex get(const void*p,int cx,int dp,size_t i){ if(cx) return dp?((double complex*)p)[i]:((float complex*)p)[i]; return dp?((double*)p)[i]:((float*)p)[i]; }
static void put(void*p,int cx,int dp,size_t i,double complex v){ if(cx){ if(dp) ((double complex*)p)[i]=v; else ((float complex*)p)[i]=v; } else if(dp) ((double*)p)[i]=creal(v); else ((float*)p)[i]=creal(v); }
static void solve(int cx,int dp,const char*jobz,const char*uplo,int n,void*a,int*da,void*w,void*z,int*dz,int lwork,int lrwork,int liwork,int*info){
    int ctx=da[1]; *info=0; if(ctx<0||ctx>=MAXG||!G[ctx].used) BAD("eigensolver on a BLACS grid that is not live"); int pr=G[ctx].pr,pc=G[ctx].pc,me; MPI_Comm_rank(G[ctx].c,&me); int mr=me/pc,mc=me%pc;
    if(*jobz!='V') BAD("eigensolver without vectors"); if(da[0]!=1||dz[0]!=1||da[2]!=n||da[3]!=n||dz[2]!=n||dz[3]!=n||da[4]!=da[5]||da[6]||da[7]||dz[1]!=ctx||dz[4]!=da[4]||dz[5]!=da[5]){ *info=-1; return; }
    int nb=da[4],z0=0,lr=numroc_(&n,&nb,&mr,&z0,&pr),lc=numroc_(&n,&nb,&mc,&z0,&pc); if(nb<1||da[8]<lr||dz[8]<lr||da[8]<1){ *info=-7; return; }
    int np0=numroc_(&n,&nb,&z0,&z0,&pr),nq0=numroc_(&n,&nb,&z0,&z0,&pc),m1=1+6*n+2*np0*nq0,m2=nb*(np0+1); if(3*nb>m2) m2=3*nb; m2+=3*n; int need=cx?n+(np0+nq0+nb)*nb:(m1>m2?m1:m2)+2*n;
    if(lwork<need){ *info=-14; return; } if(cx&&lrwork<1+9*n+3*np0*nq0){ *info=-16; return; } if(liwork<7*n+8*pc+2){ *info=-18; return; }
    int par[4]={n,nb,cx*2+dp,*uplo},ref[4]; memcpy(ref,par,sizeof par); MPI_Bcast(ref,4,MPI_INT,0,G[ctx].c); if(memcmp(ref,par,sizeof par)) BAD("eigensolver called with different arguments on different ranks");
    int sv=track_on; track_on=0; size_t sz=sizeof(double complex)*n*n; double complex *L=calloc(1,sz),*S=calloc(1,sz); 
#define GI(i,p,np) (((i)/nb*(np)+(p))*nb+(i)%nb)
    for(int j=0;j<lc;j++) for(int i=0;i<lr;i++){ int gi=GI(i,mr,pr),gj=GI(j,mc,pc); int up=(*uplo=='U'||*uplo=='u'); if(up?gi<=gj:gi>=gj) L[gi+(size_t)gj*n]=get(a,cx,dp,i+(size_t)j*da[8]); }
    MPI_Allreduce(L,S,2*n*n,MPI_DOUBLE,MPI_SUM,G[ctx].c);
    double*ev=calloc(n,8); int lw=66*n+8; double complex*wk=calloc(lw,16); double*rw=calloc(3*n+2,8);
    if(cx) zheev_(jobz,uplo,&n,S,&n,ev,wk,&lw,rw,info); else { double*R=calloc(1,8ul*n*n); for(int e=0;e<n*n;e++) R[e]=creal(S[e]); dsyev_(jobz,uplo,&n,R,&n,ev,(double*)wk,&lw,info); for(int e=0;e<n*n;e++) S[e]=R[e]; free(R); }
    for(int i=0;i<n;i++) if(dp) ((double*)w)[i]=ev[i]; else ((float*)w)[i]=ev[i];
    for(int j=0;j<lc;j++) for(int i=0;i<lr;i++){ put(z,cx,dp,i+(size_t)j*dz[8],S[GI(i,mr,pr)+(size_t)GI(j,mc,pc)*n]); put(a,cx,dp,i+(size_t)j*da[8],NAN); }
    free(L); free(S); free(ev); free(wk); free(rw); track_on=sv; }
#define REALS(nm,dp) void nm(const char*j,const char*u,int*n,void*a,int*ia,int*ja,int*da,void*w,void*z,int*iz,int*jz,int*dz,void*wk,int*lw,int*iw,int*li,int*info){ if(*ia!=1||*ja!=1||*iz!=1||*jz!=1){ *info=-5; return; } solve(0,dp,j,u,*n,a,da,w,z,dz,*lw,0,*li,info); }
#define CPLX(nm,dp) void nm(const char*j,const char*u,int*n,void*a,int*ia,int*ja,int*da,void*w,void*z,int*iz,int*jz,int*dz,void*wk,int*lw,void*rw,int*lr,int*iw,int*li,int*info){ if(*ia!=1||*ja!=1||*iz!=1||*jz!=1){ *info=-5; return; } solve(1,dp,j,u,*n,a,da,w,z,dz,*lw,*lr,*li,info); }
REALS(pssyevd_,0) REALS(pdsyevd_,1) CPLX(pcheevd_,0) CPLX(pzheevd_,1)
