/* The built-in general multiply (C27) and calls with invalid arguments (C28). */
#include "mon.h"
#include "bml_gemm.h"
#include <complex.h>
#define R3(c) rint_(&(c)->r,0,2)
static void *hal(size_t n){ track_on=0; void*p=malloc(n); track_on=1; return p; } static void hfree(void*p){ track_on=0; free(p); track_on=1; }
static cld gv(Ctx*c,int vm){ cld v; int o=c->vmode; c->vmode=vm; v=gen_value(c); c->vmode=o; return v; }
/* ---------------- C := alpha op(A) op(B) + beta C ---------------- */
static void gemm_call(Ctx*c,int xs,const char*ta,const char*tb,int m,int n,int k,void*al,void*A,int lda,void*B,int ldb,void*be,void*C,int ldc){
#define G(P) do { if(xs) LIB(bml_xsmm_gemm_##P(ta,tb,&m,&n,&k,al,A,&lda,B,&ldb,be,C,&ldc)); else LIB(bml_gemm_##P(ta,tb,&m,&n,&k,al,A,&lda,B,&ldb,be,C,&ldc)); } while(0)
    switch(c->p){ case single_real: G(single_real); break; case double_real: G(double_real); break; case single_complex: G(single_complex); break; default: G(double_complex); } }
static int dim(Ctx*c){ int k=rint_(&c->r,0,9); return k==0?0:k<3?1:k<8?rint_(&c->r,1,9):rint_(&c->r,1,33); }
int op_gemm(Ctx *c){
    static const char F[]="NTC"; char ta=F[R3(c)],tb=F[R3(c)]; int m=dim(c),n=dim(c),k=dim(c); int ra=ta=='N'?m:k,ca=ta=='N'?k:m,rb=tb=='N'?k:n,cb=tb=='N'?n:k;
    int slack=CH(c,3)?0:6; int lda=(ra>1?ra:1)+rint_(&c->r,0,slack),ldb=(rb>1?rb:1)+rint_(&c->r,0,slack),ldc=(m>1?m:1)+rint_(&c->r,0,slack); int xs=CH(c,4); int vm=rint_(&c->r,0,3);
    int bad=CH(c,12)?rint_(&c->r,1,8):0; const char *A_="",*B_="";
    int ka=rint_(&c->r,0,4),kb=rint_(&c->r,0,4); cld al=ka==0?0:ka==1?1:ka==2?-1:gv(c,2),be=kb==0?0:kb==1?1:kb==2?-1:gv(c,2);
    op_begin(c,"gemm","%s %c%c m=%d n=%d k=%d lda=%d ldb=%d ldc=%d alpha=%.6Lg%+.6Lgi beta=%.6Lg%+.6Lgi%s",pname(c->p),ta,tb,m,n,k,lda,ldb,ldc,creall(al),cimagl(al),creall(be),cimagl(be),bad?" (invalid argument)":"");
    size_t es=esize(c->p); double complex ab[2],bb[2]; eset(ab,0,c->p,al); eset(bb,0,c->p,be); al=eget(ab,0,c->p); be=eget(bb,0,c->p);
    /* only the elements the contract lets the kernel read are defined; padding is NaN, and the last column has none */
    size_t na=ca?(size_t)lda*(ca-1)+ra:0,nb=cb?(size_t)ldb*(cb-1)+rb:0,nc=n?(size_t)ldc*(n-1)+m:0; void*A=hal(na*es?na*es:1),*B=hal(nb*es?nb*es:1),*C=hal(nc*es?nc*es:1); 
    cld*a=hal(sizeof(cld)*(ra*ca+1)),*b=hal(sizeof(cld)*(rb*cb+1)),*x=hal(sizeof(cld)*(m*n+1)); cld nn=is_cplx(c->p)?NAN+NAN*I:NAN; if(is_cplx(c->p)){ __real__ nn=NAN; __imag__ nn=NAN; }
    for(size_t i=0;i<na;i++) eset(A,i,c->p,nn); for(size_t i=0;i<nb;i++) eset(B,i,c->p,nn); for(size_t i=0;i<nc;i++) eset(C,i,c->p,77+i%5);
    for(int j=0;j<ca;j++) for(int i=0;i<ra;i++){ cld v=gv(c,vm); if(al==0&&CH(c,2)) v=nn; eset(A,i+(size_t)j*lda,c->p,v); a[i+j*ra]=eget(A,i+(size_t)j*lda,c->p); }
    for(int j=0;j<cb;j++) for(int i=0;i<rb;i++){ cld v=gv(c,vm); if(al==0&&CH(c,2)) v=nn; eset(B,i+(size_t)j*ldb,c->p,v); b[i+j*rb]=eget(B,i+(size_t)j*ldb,c->p); }
    int cn=CH(c,2); for(int j=0;j<n;j++) for(int i=0;i<m;i++){ cld v=be==0&&cn?nn:gv(c,vm); eset(C,i+(size_t)j*ldc,c->p,v); x[i+j*m]=eget(C,i+(size_t)j*ldc,c->p); }
    void*A0=hal(na*es+1),*B0=hal(nb*es+1); memcpy(A0,A,na*es); memcpy(B0,B,nb*es);
    if(bad){ SH->refuse_ok=1; key(c,(uint32_t)rnd64(&c->r)); char t2=ta,u2=tb; int m2=m,n2=n,k2=k,la=lda,lb=ldb,lc=ldc; switch(bad){ case 1: t2="XQ?1"[rint_(&c->r,0,3)]; break; case 2: u2="ZAH0"[rint_(&c->r,0,3)]; break; case 3: m2=-1-dim(c); break; case 4: n2=-1-dim(c); break; case 5: k2=-1-dim(c); break; case 6: la=(ra>1?ra:1)-1; break; case 7: lb=(rb>1?rb:1)-1; break; default: lc=(m>1?m:1)-1; }
        gemm_call(c,xs,&t2,&u2,m2,n2,k2,ab,A,la,B,lb,bb,C,lc); 
#ifdef BML_INTERNAL_GEMM
        fail(c,"value","an invalid argument (%d) was accepted",bad);
#endif
    } else gemm_call(c,xs,&ta,&tb,m,n,k,ab,A,lda,B,ldb,bb,C,ldc);
    if(!bad){
    if(memcmp(A0,A,na*es)) fail(c,"const","operand A changed"); if(memcmp(B0,B,nb*es)) fail(c,"const","operand B changed");
    for(int j=0;j<n;j++) for(int i=0;i<ldc&&(size_t)j*ldc+i<nc;i++){ cld g=eget(C,i+(size_t)j*ldc,c->p);
        if(i>=m){ if(g!=(cld)(77+((size_t)j*ldc+i)%5)) fail(c,"value","padding below column %d of C changed at row %d",j,i); continue; }
        cld e=0; ld mag=0; if(al!=0) for(int l=0;l<k;l++){ cld u=ta=='N'?a[i+l*ra]:a[l+i*ra],w=tb=='N'?b[l+j*rb]:b[j+l*rb]; if(ta=='C') u=conjl(u); if(tb=='C') w=conjl(w); e+=u*w; mag+=cab(u)*cab(w); }
        e=al==0?0:al*e; ld tol=(k+6)*4*(ld)c->eps*(cab(al)*mag+(be==0?0:cab(be*x[i+j*m])))+1e-37L; if(be!=0) e+=be*x[i+j*m];
        SH->checks_total++; SH->elems_total++;
        if(!(cab(g-e)<=tol)) fail(c,"value","C(%d,%d) is %.12Lg%+.12Lgi, expected %.12Lg%+.12Lgi (tolerance %.3Lg)",i,j,creall(g),cimagl(g),creall(e),cimagl(e),tol); } }
    hfree(A);hfree(B);hfree(C);hfree(A0);hfree(B0);hfree(a);hfree(b);hfree(x); op_end(c); return 1; }

/* ---------------- invalid arguments ---------------- */
static int oobi(Ctx*c,int N){ switch(rint_(&c->r,0,5)){ case 0: return -1; case 1: return N; case 2: return N+rint_(&c->r,1,5); case 3: return -2-rint_(&c->r,0,5); case 4: return 2147483647; default: return CH(c,2)?-2147483647-1:N*(rint_(&c->r,2,4)); } }
static int anyp(Ctx*c){ int o[MAXSLOT],n=0; for(int k=0;k<MAXSLOT;k++) if(c->s[k].live) o[n++]=k; return n?o[rint_(&c->r,0,n-1)]:-1; }
int op_misuse(Ctx *c){
    int a=anyp(c); if(a<0) return 0; Slot*S=&c->s[a]; bml_matrix_t*A=S->A; int N=S->N; static int nodes[8]={0,1,2,3}; static int buf[4096]; double two[2]={2,0}; void*V=hal(16*(N*N+64)); memset(V,0,16*(N*N+64));
    int fam=rint_(&c->r,0,6),k; int T=(int[]){6,7,99,-2,1000000}[rint_(&c->r,0,4)],P=(int[]){5,6,99,-3,1000000}[rint_(&c->r,0,4)]; if(CH(c,5)) T=type_uninitialized; if(CH(c,5)) P=precision_uninitialized;
    char what[160]="?"; int before=SH->refuse_ok; op_begin(c,"misuse","choosing"); SH->refuse_ok=1; const char*got="returned"; char gotb[100];
#define SAY(...) do { snprintf(what,sizeof what,__VA_ARGS__); snprintf((char*)SH->detail,sizeof SH->detail,"%s",what); if(SH->hlen+170<(int)sizeof SH->history) SH->hlen+=snprintf(SH->history+SH->hlen,170,"  %s\n",what); { uint32_t hh=2166136261u; for(const char*q_=SH->history;*q_;q_++) hh=(hh^(unsigned char)*q_)*16777619u; key(c,hh); } } while(0)
    if(fam==0){ /* element reads outside the matrix */
        int i=rint_(&c->r,0,N-1),j=rint_(&c->r,0,N-1); if(CH(c,2)) i=oobi(c,N); else j=oobi(c,N); if(CH(c,5)){ i=oobi(c,N); j=oobi(c,N); } SAY("bml_get_element(%s, %d, %d) of %d rows",tname(S->t),i,j,N); void*v; LIB(v=bml_get_element(A,i,j)); snprintf(gotb,100,"returned %p",v); got=gotb; }
    else if(fam==1){ /* no matrix */
        int q; do q=rint_(&c->r,0,44); while(q==39); bml_matrix_t*Z=NULL; SAY("call %d on a null matrix",q); 
        switch(q){
#define N1(i,nm,...) case i: SAY("%s on a null matrix",#nm); LIB(nm(__VA_ARGS__)); break;
        N1(0,bml_get_element,Z,0,0) N1(1,bml_get_row,Z,0) N1(2,bml_get_diagonal,Z) N1(3,bml_set_element,Z,0,0,two) N1(4,bml_set_element_new,Z,0,0,two) N1(5,bml_set_row,Z,0,V,0) N1(6,bml_set_diagonal,Z,V,0)
        N1(7,bml_copy_new,Z) N1(8,bml_copy,Z,A) N1(9,bml_add,Z,A,1,1,0) N1(10,bml_add_norm,Z,A,1,1,0) N1(11,bml_add_identity,Z,1,0) N1(12,bml_scale_add_identity,Z,1,1,0) N1(13,bml_multiply,Z,A,A,1,0,0) N1(14,bml_multiply_x2,Z,A,0)
        N1(15,bml_multiply_AB,Z,A,A,0) N1(16,bml_multiply_adjust_AB,Z,A,A,0) N1(17,bml_element_multiply_AB,Z,A,A,0) N1(18,bml_scale_new,two,Z) N1(19,bml_scale,two,Z,A) N1(20,bml_scale_inplace,two,Z) N1(21,bml_threshold,Z,0.1) N1(22,bml_threshold_new,Z,0.1)
        N1(23,bml_transpose,Z) N1(24,bml_transpose_new,Z) N1(25,bml_trace,Z) N1(26,bml_trace_mult,Z,A) N1(27,bml_sum_squares,Z) N1(28,bml_sum_squares2,Z,A,1,1,0) N1(29,bml_sum_AB,Z,A,1,0) N1(30,bml_sum_squares_submatrix,Z,1) N1(31,bml_fnorm,Z) N1(32,bml_fnorm2,Z,A)
        N1(33,bml_gershgorin,Z) N1(34,bml_gershgorin_partial,Z,1) N1(35,bml_normalize,Z,0,1) N1(36,bml_accumulate_offdiag,Z,0) N1(37,bml_diagonalize,Z,V,A) N1(38,bml_inverse,Z) N1(39,bml_export_to_dense,Z,dense_row_major) N1(40,bml_clear,Z) N1(41,bml_reorder,Z,nodes) N1(42,bml_extract_submatrix,Z,0,0,1,1) N1(43,bml_write_bml_matrix,Z,"/dev/null") N1(44,bml_convert,Z,c->t,c->p,1,sequential)
        } }
    else if(fam==2){ int q=rint_(&c->r,0,6); int ty=CH(c,2)?T:(int)c->t,pr=ty==(int)c->t||CH(c,4)?P:(int)c->p; bml_matrix_t*B=NULL; static const char*nm[]={"zero","identity","random","banded","noinit","import_from_dense","convert"}; SAY("bml_%s with type %d and precision %d (%s)",nm[q],ty,pr,tname(c->t)); 
        switch(q){ case 0: LIB(B=bml_zero_matrix(ty,pr,3,3,sequential)); break; case 1: LIB(B=bml_identity_matrix(ty,pr,3,3,sequential)); break; case 2: LIB(B=bml_random_matrix(ty,pr,3,3,sequential)); break; case 3: LIB(B=bml_banded_matrix(ty,pr,3,1,sequential)); break; case 4: LIB(B=bml_noinit_matrix(ty,pr,3,3,sequential)); break; case 5: LIB(B=bml_import_from_dense(ty,pr,dense_row_major,3,3,V,0,sequential)); break; default: LIB(B=bml_convert(A,ty,pr,N,sequential)); } snprintf(gotb,100,"returned %s",B?"a matrix":"null"); got=gotb; }
    else if(fam==3){ int q=rint_(&c->r,0,1),o=(int[]){2,3,99,-1,-5}[rint_(&c->r,0,4)]; void*v=NULL; SAY("%s %s with element order %d",q?"export of":"import into",tname(c->t),o); if(q) LIB(v=bml_export_to_dense(A,o)); else LIB(v=bml_import_from_dense(c->t,c->p,o,3,3,V,0,sequential)); snprintf(gotb,100,"returned %s",v?"a result":"null"); got=gotb; }
    else if(fam==4){ /* index arguments of rows */ int q=rint_(&c->r,0,4),i=oobi(c,N); SAY("%s row/element %d of %d in %s",((const char*[]){"get_row","set_row","set_element","set_element_new","row_bandwidth"})[q],i,N,tname(S->t)); int j=rint_(&c->r,0,N-1); int sw=CH(c,2);
        switch(q){ case 0: LIB(bml_get_row(A,i)); break; case 1: LIB(bml_set_row(A,i,V,0)); break; case 2: if(sw) LIB(bml_set_element(A,j,i,two)); else LIB(bml_set_element(A,i,j,two)); break; case 3: if(sw) LIB(bml_set_element_new(A,j,i,two)); else LIB(bml_set_element_new(A,i,j,two)); break; default: LIB(bml_get_row_bandwidth(A,i)); } }
    else if(fam==5){ /* operands that do not fit each other, where the library checks them */
        int q=CH(c,2),d=q?0:rint_(&c->r,0,2),ty=c->t,pr=c->p,n=N; if(d==0) n=N+(CH(c,2)?1:-1)*rint_(&c->r,1,4); if(n<1) n=N+1;
        if(d==1){ static const int ts[]={dense,ellpack,csr,ellblock}; do ty=ts[rint_(&c->r,0,3)]; while(ty==(int)S->t); } if(d==2) do pr=rint_(&c->r,single_real,double_complex); while(pr==(int)S->p);
        bml_matrix_t*B; LIB(B=bml_identity_matrix(ty,pr,n,n,sequential)); SAY("%s of %s/%s %d and %s/%s %d",q?"trace_mult":"copy",tname(S->t),pname(S->p),N,tname(ty),pname(pr),n);
        if(q){ if(CH(c,2)) LIB(bml_trace_mult(A,B)); else LIB(bml_trace_mult(B,A)); } else { if(CH(c,2)) LIB(bml_copy(A,B)); else LIB(bml_copy(B,A)); } }
    else { /* files that are not there */ int q=CH(c,2); char fn[300]; snprintf(fn,sizeof fn,"%s/%s",c->tmpdir,CH(c,2)?"absent.mtx":"absent/m.mtx"); if(q) snprintf(fn,sizeof fn,"%s/absent/m.mtx",c->tmpdir); SAY("%s %s %s",q?"write to":"read of",fn+strlen(c->tmpdir)+1,tname(S->t)); if(q) LIB(bml_write_bml_matrix(A,fn)); else LIB(bml_read_bml_matrix(A,fn)); }
    fail(c,"value","%s: %s instead of being stopped",what,got); return 1; }

/* ---------------- printed output ---------------- */
#include <unistd.h>
#include <fcntl.h>
#include "bml_logger.h"
#include "bml_utilities.h"
static char *OUTB; static size_t OUTN;
static void cap_call(Ctx*c,void(*f)(void*),void*d){ /* runs f with standard output in a scratch file and keeps the text */
    char fn[300]; snprintf(fn,sizeof fn,"%s/o%d",c->tmpdir,(int)getpid()); fflush(stdout); int sv=dup(1),fd=open(fn,O_RDWR|O_CREAT|O_TRUNC,0600); if(sv<0||fd<0){ fail(c,"harness","no scratch file"); return; } dup2(fd,1);
    f(d); fflush(stdout); dup2(sv,1); close(sv); off_t n=lseek(fd,0,SEEK_END); lseek(fd,0,SEEK_SET); track_on=0; free(OUTB); OUTB=malloc(n+1); track_on=1; OUTN=read(fd,OUTB,n)==n?n:0; OUTB[OUTN]=0; close(fd); unlink(fn); }
#ifdef FORT
#define bml_print_bml_matrix fbml_print_bml_matrix
#define bml_print_dense_matrix fbml_print_dense_matrix
#define bml_print_version fw_print_version
void fbml_print_bml_matrix(bml_matrix_t*,int,int,int,int); void fbml_print_dense_matrix(int,bml_matrix_precision_t,bml_dense_order_t,const void*,int,int,int,int); void fw_print_version(void); void fw_message(int,int,const char*,int);
#endif
typedef struct { int k; bml_matrix_t*A; int N; bml_matrix_precision_t p; bml_dense_order_t o; void*d; int il,iu,jl,ju; int lvl; const char*s; int q; double x; } Pc;
static void do_print(void*v){ Pc*p=v; switch(p->k){ case 0: LIB(bml_print_bml_matrix(p->A,p->il,p->iu,p->jl,p->ju)); break; case 1: LIB(bml_print_dense_matrix(p->N,p->p,p->o,p->d,p->il,p->iu,p->jl,p->ju)); break; default: LIB(bml_print_dense_vector(p->N,p->p,p->d,p->il,p->iu)); } }
static void show(Ctx*c,const char*what,int rows,int cols,int vec,cld(*at)(void*,int,int),void*d){
    char*q=OUTB;
#ifdef FORT
    if(!vec){ if(strncmp(q,"tag of it\n",10)){ fail(c,"value","%s: the tag does not come first: %.60s",what,q); return; } q+=10; }
#endif
    for(int i=0;i<rows;i++){ for(int j=0;j<cols;j++){ char*e; while(*q==' '||*q=='\t') q++; if(!*q||*q=='\n'){ fail(c,"value","%s: line %d has %d of %d elements",what,i,j,cols); return; }
            ld re=strtold(q,&e),im=0; if(e==q){ fail(c,"value","%s: line %d does not show a number: %.60s",what,i,q); return; } q=e; if(is_cplx(c->p)){ im=strtold(q,&e); if(e==q){ fail(c,"value","%s: line %d shows no imaginary part: %.60s",what,i,q); return; } q=e; if(*q=='i') q++; }
            cld x=at(d,i,j); SH->checks_total++; SH->elems_total++; ld t=0.00051L; if(!(fabsl(re-creall(x))<=t+fabsl(creall(x))*1e-6L&&fabsl(im-cimagl(x))<=t+fabsl(cimagl(x))*1e-6L)){ fail(c,"value","%s: element %d of line %d is printed as %.9Lg%+.9Lgi, it is %.12Lg%+.12Lgi",what,j,i,re,im,creall(x),cimagl(x)); return; } }
        while(*q==' '||*q=='\t'||*q=='\r') q++; if(*q!='\n'){ fail(c,"value","%s: line %d goes on after %d elements: %.60s",what,i,cols,q); return; } q++; }
    while(*q==' '||*q=='\n') q++; if(*q) fail(c,"value","%s: %.80s follows the %d lines",what,q,rows); }
static Pc*PX; static cld *PV; static cld at_m(void*v,int i,int j){ return PV[(PX->il+i)*PX->N+PX->jl+j]; } static cld at_v(void*v,int i,int j){ return PV[PX->il+j]; }
static void range(Ctx*c,int N,int*l,int*u){ switch(rint_(&c->r,0,3)){ case 0: *l=0;*u=N; break; case 1: *l=*u=rint_(&c->r,0,N); break; default: *l=rint_(&c->r,0,N-1); *u=rint_(&c->r,*l,N); } }
int op_print(Ctx *c){
    int a=anyp(c); if(a<0) return 0; Slot*S=&c->s[a]; Pc P={0}; int N=S->N; P.k=rint_(&c->r,0,5)<3?0:rint_(&c->r,1,2); P.A=S->A; P.N=N; P.p=c->p; P.o=CH(c,2)?dense_row_major:dense_column_major; range(c,N,&P.il,&P.iu); range(c,N,&P.jl,&P.ju); PX=&P; PV=S->v; cld*own=NULL;
    static const char*nm[]={"print_bml_matrix","print_dense_matrix","print_dense_vector"};
    if(P.k){ size_t n=P.k==1?(size_t)N*N:N; P.d=hal(16*n+16); own=hal(sizeof(cld)*N*N); PV=own; for(int i=0;i<N;i++) for(int j=0;j<(P.k==1?N:1);j++){ cld x=roundp(P.k==1&&CH(c,2)?S->v[i*N+j]:gen_value(c),c->p); if(P.k==1){ own[i*N+j]=x; eset(P.d,P.o==dense_row_major?i*N+j:i+j*N,c->p,x); } else { own[i]=x; eset(P.d,i,c->p,x); } } }
    op_begin(c,"print","%s s%d rows %d..%d columns %d..%d %s",nm[P.k],a,P.il,P.iu,P.jl,P.ju,P.k==1?(P.o==dense_row_major?"row-major":"column-major"):"");
    cap_call(c,do_print,&P); if(P.k==2) show(c,nm[2],1,P.iu-P.il,1,at_v,&P); else show(c,nm[P.k],P.iu-P.il,P.ju-P.jl,0,at_m,&P);
    verify_const(c,0); if(P.d) hfree(P.d); if(own) hfree(own); op_end(c); return 1; }
static void do_log(void*v){ Pc*p=v;
#ifdef FORT
    if(p->k!=2){ LIB(fw_message(p->lvl==BML_LOG_ERROR?2:p->lvl==BML_LOG_WARNING?1:0,p->q,p->s,strlen(p->s))); return; }
#endif
    switch(p->k){ case 3: LIB(bml_log(p->lvl,(char*)p->s)); break; case 4: LIB(bml_log_location(p->lvl,"some/file.c",p->q,(char*)p->s)); break; case 0: LIB(bml_log(p->lvl,"%s|%d|%g\n",p->s,p->q,p->x)); break; case 1: LIB(bml_log_location(p->lvl,"some/file.c",p->q,"%s|%d|%g\n",p->s,p->q,p->x)); break; default: LIB(bml_print_version()); } }
int op_log(Ctx *c){
    int a=anyp(c); if(a<0) return 0; Pc P={0}; P.k=rint_(&c->r,0,8)==0?2:rint_(&c->r,0,1); P.lvl=rint_(&c->r,BML_LOG_DEBUG,BML_LOG_ERROR); P.q=rint_(&c->r,-9,99999); P.x=rint_(&c->r,-999,999)/8.0;
    int n=CH(c,6)?rint_(&c->r,200,9000):rint_(&c->r,0,60); char*s=hal(n+1); for(int i=0;i<n;i++){ do s[i]=rint_(&c->r,33,126); while(s[i]=='|'); } s[n]=0; P.s=s; char*want=hal(n+100); snprintf(want,n+100,"%s|%d|%g\n",s,P.q,P.x);
#ifndef FORT
    if(CH(c,6)){ /* the text is the format itself, of any length: what is longer than the format buffer may be cut off */
        char*f=hal(12001); n=CH(c,2)?rint_(&c->r,9900,12000):rint_(&c->r,0,300); for(int i=0;i<n;i++) do f[i]=rint_(&c->r,33,126); while(f[i]=='%'); f[n]=0; P.s=f; P.k=CH(c,2)?3:4; P.lvl=rint_(&c->r,BML_LOG_DEBUG,BML_LOG_WARNING);
        op_begin(c,"log","format of %d characters, level %d",n,P.lvl); cap_call(c,do_log,&P); SH->checks_total++;
        if(P.lvl<GLOBAL_DEBUG){ if(OUTN) fail(c,"value","a message below the level of the build was printed: %.80s",OUTB); }
        else { char*q=OUTB; if(P.k==4){ char loc[60]; snprintf(loc,60,"some/file.c:%d",P.q); if(!(q=strstr(OUTB,loc))) fail(c,"value","the place %s is not in the message %.100s",loc,OUTB); else q+=strlen(loc); while(*q&&*q!=' ') q++; if(*q==' ') q++; }
            size_t w=strlen(q); if(strncmp(q,f,w)||w<(n<9900?n:9900)) fail(c,"value","of a message of %d characters %zu are printed: %.60s ... %.60s instead of %.60s ... %.60s",n,w,q,w>60?q+w-60:"",f,n>60?f+n-60:""); }
        hfree(f); hfree(s); hfree(want); verify_const(c,0); op_end(c); return 1; }
#endif
    op_begin(c,"log","%s level %d, %d characters",P.k==2?"print_version":P.k?"log_location":"log",P.lvl,n); 
    if(P.k!=2&&P.lvl==BML_LOG_ERROR){ SH->refuse_ok=1; if(P.k) do_log(&P); else do_log(&P); fail(c,"value","an error message did not stop the program"); return 1; }
    cap_call(c,do_log,&P); SH->checks_total++;
#ifdef FORT
    if(P.k!=2){ snprintf(want,n+100,"[some/file.c:%d %s] %s\n",P.q,P.lvl==BML_LOG_WARNING?"WARNING":"DEBUG",s); if(strcmp(OUTB,want)) fail(c,"value","the message printed is %.100s instead of %.100s",OUTB,want); } else
#endif
    if(P.k==2){ if(!strstr(OUTB,bml_version())||!*bml_version()) fail(c,"value","the version %s is not in the printed text %.80s",bml_version(),OUTB); }
    else if(P.lvl<GLOBAL_DEBUG){ if(OUTN) fail(c,"value","a message below the level of the build was printed: %.80s",OUTB); }
    else { size_t w=strlen(want); if(OUTN<w||memcmp(OUTB+OUTN-w,want,w)) fail(c,"value","the message printed is %.100s instead of %.100s",OUTB,want); else if(P.k==1){ char loc[60]; snprintf(loc,60,"some/file.c:%d",P.q); if(!strstr(OUTB,loc)) fail(c,"value","the place %s is not in the message %.100s",loc,OUTB); } }
    hfree(s); hfree(want); verify_const(c,0); op_end(c); return 1; }
