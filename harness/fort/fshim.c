/* The C signatures of the workload on top of the bind(C) routines of fwrap.F90. */
#include "mon.h"
extern Ctx *CURCTX;
#define Mx bml_matrix_t
int fw_vary(int k){ static uint64_t n; uint64_t h=(uint64_t)SH->hlen*0x9E3779B97F4A7C15ull+n++*0xD1B54A32D192ED03ull; for(int i=0;i<96&&i<SH->hlen;i++) h=(h^(unsigned char)SH->history[i])*1099511628211ull; h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32; return (int)(h%(unsigned)k); }
void fw_wrong(const char *s){ fail(CURCTX,"value","%s",s); }
static void *ual(size_t n){ track_on=0; void*p=malloc(n?n:1); track_on=1; return p; } static void ufr(void*p){ track_on=0; free(p); track_on=1; }
/* a result goes into a variable that may still hold another matrix, which the call has to release */
static Mx *old(void){ return fw_vary(3)?NULL:bml_identity_matrix(fw_vary(2)?dense:ellpack,single_real,2,2,sequential); }
/* the same call through the C interface on a copy: both results have to be the same, element for element */
static Mx *twin(Mx*A){ return A&&fw_vary(3)==0?bml_copy_new(A):NULL; }
static void alike(Mx*T,Mx*A,const char*what){ if(!T) return; int n=bml_get_N(A); bml_matrix_precision_t e=bml_get_precision(A); void*x=bml_export_to_dense(T,dense_row_major),*y=bml_export_to_dense(A,dense_row_major);
    for(int q=0;q<n*n;q++){ cld a=eget(x,q,e),b=eget(y,q,e); if(!(a==b)&&!(a!=a&&b!=b)) fail(CURCTX,"value","%s: element (%d,%d) is %.17Lg %+.17Lgi through the Fortran interface and %.17Lg %+.17Lgi through the C interface",what,q/n,q%n,creall(b),cimagl(b),creall(a),cimagl(a)); }
    bml_free_memory(x); bml_free_memory(y); bml_deallocate(&T); SH->checks_total++; }
#define BOTH(A,cc,ff,what) Mx*T=twin(A); if(T){ cc; } ff; alike(T,A,what);
#define NEW(f) void fw_##f##_matrix(int,int,int,int,int,Mx**); Mx *fbml_##f##_matrix(bml_matrix_type_t t,bml_matrix_precision_t e,int n,int m,bml_distribution_mode_t d){ Mx*p=old(); fw_##f##_matrix(t,e,n,m,d,&p); return p; }
void fw_block_matrix(int,int,int,int,int,int*,int,Mx**); Mx *fbml_block_matrix(bml_matrix_type_t t,bml_matrix_precision_t e,int nb,int mb,int m,int*b,bml_distribution_mode_t d){ Mx*p=old(); fw_block_matrix(t,e,nb,mb,m,b,d,&p); return p; }
NEW(zero) NEW(noinit) NEW(banded) NEW(random) NEW(identity)
#define TYPED(f,args) void fw_##f##_single_real args; void fw_##f##_double_real args; void fw_##f##_single_complex args; void fw_##f##_double_complex args;
#define CALL(e,f,...) switch(e){ case single_real: fw_##f##_single_real(__VA_ARGS__); break; case double_real: fw_##f##_double_real(__VA_ARGS__); break; case single_complex: fw_##f##_single_complex(__VA_ARGS__); break; default: fw_##f##_double_complex(__VA_ARGS__); }
TYPED(import,(int,int,int,double,int,void*,int,int,int,int,int,int,Mx**)) TYPED(export,(Mx*,int,void*)) TYPED(get_row,(Mx*,int,int,void*)) TYPED(get_diagonal,(Mx*,int,void*)) TYPED(get_element,(Mx*,int,int,void*)) TYPED(set_element,(Mx*,int,int,void*,int)) TYPED(set_row,(Mx*,int,int,void*,double)) TYPED(set_diagonal,(Mx*,int,void*,double)) TYPED(scale,(void*,Mx*,Mx*,int))
Mx *fbml_import_from_dense(bml_matrix_type_t t,bml_matrix_precision_t e,bml_dense_order_t o,int n,int m,void*A,double thr,bml_distribution_mode_t d){
    int s1=fw_vary(4)?1+fw_vary(3):0,s2=s1?1+fw_vary(3):1,o1=s1?1+fw_vary(3):1,o2=s1?1+fw_vary(3):1; if(fw_vary(3)==0&&s1){ s1=s2=1; } int l=s1?o1+(n-1)*s1+fw_vary(3):n,k=s1?o2+(n-1)*s2+fw_vary(2):n; size_t es=esize(e);
    char*B=ual(es*l*k); for(size_t q=0;q<(size_t)l*k;q++) eset(B,q,e,55+(int)(q%7));
    for(int j=0;j<n;j++) for(int i=0;i<n;i++) memcpy(B+es*((o1-1+(size_t)i*(s1?s1:1))+(size_t)l*(o2-1+(size_t)j*s2)),(char*)A+es*(o==dense_column_major?i+(size_t)j*n:j+(size_t)i*n),es);
    Mx*p=old(); CALL(e,import,t,n,m,thr,d,B,l,k,o1,s1,o2,s2,&p) ufr(B); if(fw_vary(3)==0) alike(bml_import_from_dense(t,e,o,n,m,A,thr,d),p,"import"); return p; }
TYPED(print,(void*,int,int,int,int,int,int,int,int,int,int,int)) void fw_print_matrix(Mx*,int,int,int,int);
void fbml_print_bml_matrix(Mx*A,int il,int iu,int jl,int ju){ fw_print_matrix(A,il,iu,jl,ju); }
void fbml_print_dense_matrix(int n,bml_matrix_precision_t e,bml_dense_order_t o,const void*A,int il,int iu,int jl,int ju){
    int s1=fw_vary(3)?1+fw_vary(3):0,s2=s1?1+fw_vary(3):1,o1=s1?1+fw_vary(3):1,o2=s1?1+fw_vary(3):1; int l=s1?o1+(n-1)*s1+fw_vary(3):n,k=s1?o2+(n-1)*s2+fw_vary(2):n; size_t es=esize(e);
    char*B=ual(es*l*k); for(size_t q=0;q<(size_t)l*k;q++) eset(B,q,e,55+(int)(q%7));
    for(int j=0;j<n;j++) for(int i=0;i<n;i++) memcpy(B+es*((o1-1+(size_t)i*(s1?s1:1))+(size_t)l*(o2-1+(size_t)j*s2)),(char*)A+es*(o==dense_column_major?i+(size_t)j*n:j+(size_t)i*n),es);
    CALL(e,print,B,l,k,o1,s1,o2,s2,n,il,iu,jl,ju) ufr(B); }
void *fbml_export_to_dense(Mx*A,bml_dense_order_t o){ int n=bml_get_N(A); bml_matrix_precision_t e=bml_get_precision(A); size_t es=esize(e); char*B=ual(es*n*n); CALL(e,export,A,n,B)
    char*R=bml_noinit_allocate_memory(es*n*n); for(int j=0;j<n;j++) for(int i=0;i<n;i++) memcpy(R+es*(o==dense_column_major?i+(size_t)j*n:j+(size_t)i*n),B+es*(i+(size_t)j*n),es); ufr(B); return R; }
void *fbml_get_row(Mx*A,int i){ int n=bml_get_N(A); bml_matrix_precision_t e=bml_get_precision(A); void*R=bml_noinit_allocate_memory(esize(e)*n); CALL(e,get_row,A,i,n,R) return R; }
void *fbml_get_diagonal(Mx*A){ int n=bml_get_N(A); bml_matrix_precision_t e=bml_get_precision(A); void*R=bml_noinit_allocate_memory(esize(e)*n); CALL(e,get_diagonal,A,n,R) return R; }
void *fbml_get_element(Mx*A,int i,int j){ static double v[2]; bml_matrix_type_t t=bml_get_type(A); if(t!=dense&&t!=ellpack) return bml_get_element(A,i,j); /* the typed entry point exists for these two */ CALL(bml_get_precision(A),get_element,A,i,j,v) return v; }
void fbml_set_element(Mx*A,int i,int j,void*v){ CALL(bml_get_precision(A),set_element,A,i,j,v,0) } void fbml_set_element_new(Mx*A,int i,int j,void*v){ CALL(bml_get_precision(A),set_element,A,i,j,v,1) }
void fbml_set_row(Mx*A,int i,void*r,double t){ BOTH(A,bml_set_row(T,i,r,t),CALL(bml_get_precision(A),set_row,A,i,bml_get_N(A),r,t),"set_row") } void fbml_set_diagonal(Mx*A,void*r,double t){ BOTH(A,bml_set_diagonal(T,r,t),CALL(bml_get_precision(A),set_diagonal,A,bml_get_N(A),r,t),"set_diagonal") }
void fbml_scale(void*v,Mx*A,Mx*B){ CALL(bml_get_precision(A),scale,v,A,B,1) } void fbml_scale_inplace(void*v,Mx*A){ CALL(bml_get_precision(A),scale,v,A,NULL,0) }
void fw_deallocate(Mx**); void fbml_deallocate(Mx**A){ fw_deallocate(A); }
#define V1(f) void fw_##f(Mx*); void fbml_##f(Mx*A){ fw_##f(A); }
#define D1(f) double fw_##f(Mx*); double fbml_##f(Mx*A){ return fw_##f(A); }
#define I1_(f,g) int fw_##g(Mx*); int fbml_##f(Mx*A){ return fw_##g(A); }
#define I1(f) I1_(f,f)
V1(clear) V1(save_domain) V1(restore_domain) I1(allocated) I1_(get_N,get_n) I1_(get_M,get_m) I1(get_bandwidth) I1(get_type) I1(get_deep_type) I1(get_precision) I1(get_distribution_mode) D1(sum_squares) D1(fnorm) D1(trace)
void fw_update_domain(Mx*,int*,int*,int*); void fbml_update_domain(Mx*A,int*x,int*y,int*z){ fw_update_domain(A,x,y,z); }
#define NEW1(f,g) void fw_##g(Mx*,Mx**); Mx *fbml_##f(Mx*A){ Mx*p=old(); fw_##g(A,&p); return p; }
NEW1(copy_new,copy_new) NEW1(inverse,inverse) NEW1(transpose_new,transpose)
void fw_copy(Mx*,Mx*); void fbml_copy(Mx*A,Mx*B){ fw_copy(A,B); }
void fw_reorder(Mx*,int*); void fbml_reorder(Mx*A,int*p){ BOTH(A,bml_reorder(T,p),fw_reorder(A,p),"reorder") }
void fw_diagonalize(Mx*,double*,Mx*); void fbml_diagonalize(Mx*A,void*w,Mx*B){ fw_diagonalize(A,w,B); }
void fw_add(Mx*,Mx*,double,double,double); void fbml_add(Mx*A,Mx*B,double a,double b,double t){ BOTH(A,bml_add(T,B,a,b,t),fw_add(A,B,a,b,t),"add") }
double fw_add_norm(Mx*,Mx*,double,double,double); double fbml_add_norm(Mx*A,Mx*B,double a,double b,double t){ return fw_add_norm(A,B,a,b,t); }
void fw_add_identity(Mx*,double,double); void fbml_add_identity(Mx*A,double b,double t){ BOTH(A,bml_add_identity(T,b,t),fw_add_identity(A,b,t),"add_identity") }
void fw_scale_add_identity(Mx*,double,double,double); void fbml_scale_add_identity(Mx*A,double a,double b,double t){ BOTH(A,bml_scale_add_identity(T,a,b,t),fw_scale_add_identity(A,a,b,t),"scale_add_identity") }
void fw_multiply(Mx*,Mx*,Mx*,double,double,double); void fbml_multiply(Mx*A,Mx*B,Mx*C,double a,double b,double t){ BOTH(C,bml_multiply(A,B,T,a,b,t),fw_multiply(A,B,C,a,b,t),"multiply") }
void fw_element_multiply_ab(Mx*,Mx*,Mx*,double); void fbml_element_multiply_AB(Mx*A,Mx*B,Mx*C,double t){ BOTH(C,bml_element_multiply_AB(A,B,T,t),fw_element_multiply_ab(A,B,C,t),"element_multiply_AB") }
void fw_multiply_x2(Mx*,Mx*,double,double*); void *fbml_multiply_x2(Mx*A,Mx*B,double t){ double*r=bml_noinit_allocate_memory(2*sizeof(double)); fw_multiply_x2(A,B,t,r); return r; }
void fw_transpose_triangle(Mx*,int); void fbml_transpose_triangle(Mx*A,char t){ BOTH(A,bml_transpose_triangle(T,t),fw_transpose_triangle(A,t),"transpose_triangle") }
void fw_adjungate_triangle(Mx*,int); void fbml_adjungate_triangle(Mx*A,char*t){ fw_adjungate_triangle(A,*t); }
void fw_threshold(Mx*,double); void fbml_threshold(Mx*A,double t){ BOTH(A,bml_threshold(T,t),fw_threshold(A,t),"threshold") }
double fw_sum_squares_submatrix(Mx*,int); double fbml_sum_squares_submatrix(Mx*A,int k){ return fw_sum_squares_submatrix(A,k); }
double fw_sum_ab(Mx*,Mx*,double,double); double fbml_sum_AB(Mx*A,Mx*B,double a,double t){ return fw_sum_ab(A,B,a,t); }
double fw_sum_squares2(Mx*,Mx*,double,double,double); double fbml_sum_squares2(Mx*A,Mx*B,double a,double b,double t){ return fw_sum_squares2(A,B,a,b,t); }
double fw_fnorm2(Mx*,Mx*); double fbml_fnorm2(Mx*A,Mx*B){ return fw_fnorm2(A,B); } double fw_trace_mult(Mx*,Mx*); double fbml_trace_mult(Mx*A,Mx*B){ return fw_trace_mult(A,B); }
void fw_normalize(Mx*,double,double); void fbml_normalize(Mx*A,double a,double b){ BOTH(A,bml_normalize(T,a,b),fw_normalize(A,a,b),"normalize") }
void fw_gershgorin(Mx*,double*); void *fbml_gershgorin(Mx*A){ double*r=bml_noinit_allocate_memory(2*sizeof(double)); fw_gershgorin(A,r); return r; }
void fw_gershgorin_partial(Mx*,int,double*); void *fbml_gershgorin_partial(Mx*A,int k){ double*r=bml_noinit_allocate_memory(2*sizeof(double)); fw_gershgorin_partial(A,k,r); return r; }
int fw_get_row_bandwidth(Mx*,int); int fbml_get_row_bandwidth(Mx*A,int i){ return fw_get_row_bandwidth(A,i); }
double fw_get_sparsity(Mx*,double); double fbml_get_sparsity(Mx*A,double t){ return fw_get_sparsity(A,t); }
void fw_submatrix_index(Mx*,int,Mx*,int*,int,int*,int*,int); void fbml_matrix2submatrix_index(Mx*A,Mx*B,int*x,int n,int*y,int*z,int f){ fw_submatrix_index(A,0,B,x,n,y,z,f); } void fbml_matrix2submatrix_index_graph(Mx*B,int*x,int n,int*y,int*z,int f){ fw_submatrix_index(NULL,1,B,x,n,y,z,f); }
void fw_matrix2submatrix(Mx*,Mx*,int*,int); void fbml_matrix2submatrix(Mx*A,Mx*B,int*x,int l){ fw_matrix2submatrix(A,B,x,l); }
void fw_submatrix2matrix(Mx*,Mx*,int*,int,int,double); void fbml_submatrix2matrix(Mx*A,Mx*B,int*x,int l,int ll,double t){ BOTH(B,bml_submatrix2matrix(A,T,x,l,ll,t),fw_submatrix2matrix(A,B,x,l,ll,t),"submatrix2matrix") }
void fw_adjacency(Mx*,int*,int*,int); void fbml_adjacency(Mx*A,int*x,int*y,int f){ fw_adjacency(A,x,y,f); }
void fw_adjacency_group(Mx*,int*,int,int*,int*,int); void fbml_adjacency_group(Mx*A,int*h,int n,int*x,int*y,int f){ fw_adjacency_group(A,h,n,x,y,f); }
void fw_group_matrix(Mx*,int*,int,double,Mx**); Mx *fbml_group_matrix(Mx*A,int*h,int n,double t){ Mx*p=old(); fw_group_matrix(A,h,n,t,&p); return p; }
void fw_file(Mx*,char*,int,int); void fbml_write_bml_matrix(Mx*A,char*f){ fw_file(A,f,strlen(f),1); } void fbml_read_bml_matrix(Mx*A,char*f){ fw_file(A,f,strlen(f),0); }
