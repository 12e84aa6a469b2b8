/* Flat C entry points over the repository's matrices/maxwell/eigensolver layers, so that
   the Python explorers can call the real code directly through ctypes. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "config.h"
#include <check.h>
#include <mpiglue.h>
#include <mpi_utils.h>
#include <matrices.h>
#include <eigensolver.h>
#include <maxwell.h>
#include <matrixio.h>

#ifdef SCALAR_COMPLEX
int vs_nvals(void) { return 2; }
#else
int vs_nvals(void) { return 1; }
#endif
#ifdef WITH_HERMITIAN_EPSILON
int vs_hermitian(void) { return 1; }
#else
int vs_hermitian(void) { return 0; }
#endif

/* ---------- evectmatrix / sqmatrix wrappers ---------- */
static evectmatrix EV(int n, int p, void *data) {
  evectmatrix X; X.N = X.localN = X.allocN = n; X.Nstart = 0; X.c = 1; X.n = n; X.p = X.alloc_p = p; X.data = (scalar*)data; return X;
}
static evectmatrix EV2(int N, int p, void *data) {
  evectmatrix X; X.N = X.localN = X.allocN = N; X.Nstart = 0; X.c = 2; X.n = 2*N; X.p = X.alloc_p = p; X.data = (scalar*)data; return X;
}
static sqmatrix SQ(int p, void *data) { sqmatrix S; S.p = S.alloc_p = p; S.data = (scalar*)data; return S; }

void ev_copy(int n,int p,void*x,void*y){evectmatrix_copy(EV(n,p,x),EV(n,p,y));}
void ev_copy_slice(int n,int px,int py,void*x,void*y,int ix,int iy,int p){evectmatrix_copy_slice(EV(n,px,x),EV(n,py,y),ix,iy,p);}
void ev_resize(int n,int allocp,int p0,int p1,void*x,int preserve){evectmatrix X=EV(n,p0,x);X.alloc_p=allocp;evectmatrix_resize(&X,p1,(short)preserve);}
void ev_aXpbY(int n,int p,double a,void*x,double b,void*y){evectmatrix_aXpbY(a,EV(n,p,x),b,EV(n,p,y));}
void ev_aXpbYS_sub(int n,int p,int ps,double a,void*x,double b,void*y,void*s,int off,int dag){evectmatrix_aXpbYS_sub(a,EV(n,p,x),b,EV(n,p,y),SQ(ps,s),off,(short)dag);}
void ev_XeYS(int n,int p,int ps,void*x,void*y,void*s,int herm){evectmatrix_XeYS(EV(n,p,x),EV(n,p,y),SQ(ps,s),(short)herm);}
void ev_XpaYS(int n,int p,int ps,void*x,double a,void*y,void*s,int dag){evectmatrix_XpaYS(EV(n,p,x),a,EV(n,p,y),SQ(ps,s),(short)dag);}
void ev_XtX(int n,int p,void*u,void*x,void*s){evectmatrix_XtX(SQ(p,u),EV(n,p,x),SQ(p,s));}
void ev_XtY(int n,int p,void*u,void*x,void*y,void*s){evectmatrix_XtY(SQ(p,u),EV(n,p,x),EV(n,p,y),SQ(p,s));}
void ev_XtY_slice(int n,int px,int py,int pu,void*u,void*x,void*y,int ix,int iy,int p,void*s){evectmatrix_XtY_slice(SQ(pu,u),EV(n,px,x),EV(n,py,y),ix,iy,p,SQ(pu,s));}
void ev_XtY_slice2(int n,int px,int py,int pu,void*u,void*x,void*y,int ix,int iy,int p,int q,int iu,void*s1,void*s2){evectmatrix_XtY_slice2(SQ(pu,u),EV(n,px,x),EV(n,py,y),ix,iy,p,q,iu,SQ(pu,s1),SQ(pu,s2));}
void ev_XtY_sub(int n,int p,int pu,void*u,int off,void*x,void*y,void*s){evectmatrixXtY_sub(SQ(pu,u),off,EV(n,p,x),EV(n,p,y),SQ(p,s));}
void ev_XtY_diag(int n,int p,void*x,void*y,void*d,void*s){evectmatrix_XtY_diag(EV(n,p,x),EV(n,p,y),(scalar*)d,(scalar*)s);}
void ev_XtY_diag_real(int n,int p,void*x,void*y,double*d,double*s){evectmatrix_XtY_diag_real(EV(n,p,x),EV(n,p,y),d,s);}
void ev_XtX_diag_real(int n,int p,void*x,double*d,double*s){evectmatrix_XtX_diag_real(EV(n,p,x),d,s);}
void ev_traceXtY(int n,int p,void*x,void*y,void*out){*(scalar*)out=evectmatrix_traceXtY(EV(n,p,x),EV(n,p,y));}

void mx_XpaY_diag(int n,int p,void*x,double a,void*y,void*d){matrix_XpaY_diag(x,a,y,d,n,p);}
void mx_XpaY_diag_real(int n,int p,void*x,double a,void*y,double*d){matrix_XpaY_diag_real(x,a,y,d,n,p);}
void mx_XdYd(int n,int p,void*x,double*d1,void*y,double*d2){matrix_X_diag_real_pY_diag_real(x,d1,y,d2,n,p);}
double mx_re_trace_A_diag_real(int p,void*a,double*d){return matrix_re_trace_A_diag_real(a,d,p);}
void mx_diag_trace(int p,void*d,void*out){*(scalar*)out=matrix_diag_trace(d,p);}
double mx_diag_real_trace(int p,double*d){return matrix_diag_real_trace(d,p);}

void sq_copy(int p,void*a,void*b){sqmatrix_copy(SQ(p,a),SQ(p,b));}
void sq_resize(int allocp,int p0,int p1,void*a,int preserve){sqmatrix A=SQ(p0,a);A.alloc_p=allocp;sqmatrix_resize(&A,p1,(short)preserve);}
void sq_upper2full(int p,void*f,void*u){sqmatrix_copy_upper2full(SQ(p,f),SQ(p,u));}
void sq_symmetrize(int p,void*s,void*a){sqmatrix_symmetrize(SQ(p,s),SQ(p,a));}
void sq_trace(int p,void*a,void*out){*(scalar*)out=sqmatrix_trace(SQ(p,a));}
void sq_traceAtB(int p,void*a,void*b,void*out){*(scalar*)out=sqmatrix_traceAtB(SQ(p,a),SQ(p,b));}
void sq_AeBC(int p,void*a,void*b,int bd,void*c,int cd){sqmatrix_AeBC(SQ(p,a),SQ(p,b),(short)bd,SQ(p,c),(short)cd);}
void sq_ApaBC(int p,void*a,double x,void*b,int bd,void*c,int cd){sqmatrix_ApaBC(SQ(p,a),x,SQ(p,b),(short)bd,SQ(p,c),(short)cd);}
void sq_ApaB(int p,void*a,double x,void*b){sqmatrix_ApaB(SQ(p,a),x,SQ(p,b));}
void sq_aApbB(int p,double x,void*a,double y,void*b){sqmatrix_aApbB(x,SQ(p,a),y,SQ(p,b));}
int sq_invert(int p,void*u,int pd,int pw,void*w){return sqmatrix_invert(SQ(p,u),(short)pd,SQ(pw,w));}
void sq_gen_eigensolve(int p,void*u,void*b,double*ev,int pw,void*w){sqmatrix_gen_eigensolve(SQ(p,u),SQ(p,b),ev,SQ(pw,w));}
void sq_eigensolve(int p,void*u,double*ev,int pw,void*w){sqmatrix_eigensolve(SQ(p,u),ev,SQ(pw,w));}
void sq_eigenvalues(int p,void*a,void*ev){sqmatrix_eigenvalues(SQ(p,a),(scalar_complex*)ev);}
void sq_sqrt(int p,void*r,void*u,void*w){sqmatrix_sqrt(SQ(p,r),SQ(p,u),SQ(p,w));}

/* ---------- dense-operator eigensolvers ---------- */
static void dense_op(evectmatrix Xin, evectmatrix Xout, void *data, int cur, evectmatrix W) {
  /* Xout = M Xin with M an n x n row-major scalar matrix */
  scalar *M = (scalar*)data; int i,j,b; (void)cur;(void)W;
  for (i=0;i<Xin.n;++i) for (b=0;b<Xin.p;++b) {
    scalar s; ASSIGN_ZERO(s);
    for (j=0;j<Xin.n;++j) ACCUMULATE_SUM_MULT(s, M[i*Xin.n+j], Xin.data[j*Xin.p+b]);
    Xout.data[i*Xin.p+b]=s;
  }
}
static void dense_pre(evectmatrix Xin, evectmatrix Xout, void *data, evectmatrix Y, real *ev, sqmatrix YtY) {
  evectmatrix nul; (void)Y;(void)ev;(void)YtY;
  memset(&nul,0,sizeof nul);
  if (Xin.data==Xout.data) { evectmatrix t=Xin; t.data=malloc(sizeof(scalar)*Xin.n*Xin.p); dense_op(Xin,t,data,0,nul); evectmatrix_copy(Xout,t); free(t.data);} 
  else dense_op(Xin,Xout,data,0,nul);
}
static void dense_cons(evectmatrix X, void *data) { evectmatrix nul; dense_pre(X,X,data,nul,0,SQ(0,0)); }

/* kind 0: eigensolver; 1: davidson.  A,B,K,C: n x n or NULL. Returns iterations. */
int es_solve(int kind,int n,int p,void*y,double*ev,void*A,void*B,void*K,void*C,int nwork,double tol,int flags,double target) {
  evectmatrix W[3]; int i, it=0;
  for (i=0;i<nwork;++i) { W[i]=EV(n,p,malloc(sizeof(scalar)*n*p)); memset(W[i].data,0xff,sizeof(scalar)*n*p); }
  if (kind==0) eigensolver(EV(n,p,y),ev,dense_op,A,B?dense_op:NULL,B,K?dense_pre:NULL,K,C?dense_cons:NULL,C,W,nwork,tol,&it,flags);
  else eigensolver_davidson(EV(n,p,y),ev,dense_op,A,K?dense_pre:NULL,K,C?dense_cons:NULL,C,W,nwork,tol,&it,flags,target);
  for (i=0;i<nwork;++i) free(W[i].data);
  return it;
}
void es_get_eigenvals(int n,int p,void*y,double*ev,void*A){
  evectmatrix W1=EV(n,p,malloc(sizeof(scalar)*n*p)),W2=EV(n,p,malloc(sizeof(scalar)*n*p));
  eigensolver_get_eigenvals(EV(n,p,y),ev,dense_op,A,W1,W2); free(W1.data);free(W2.data);
}

/* ---------- maxwell ---------- */
typedef struct { maxwell_data *d; int N; } H;
void *mk_create(int nx,int ny,int nz,int num_bands,int nfft,int *info) {
  int lN,Ns,aN; H *h=malloc(sizeof(H));
  h->d=create_maxwell_data(nx,ny,nz,&lN,&Ns,&aN,num_bands,nfft); h->N=lN;
  info[0]=lN;info[1]=Ns;info[2]=aN;info[3]=h->d->fft_output_size;info[4]=h->d->last_dim;info[5]=h->d->last_dim_size;info[6]=h->d->other_dims;info[7]=h->d->num_fft_bands;
  return h;
}
void mk_destroy(void*v){destroy_maxwell_data(((H*)v)->d);free(v);}
void mk_set_num_bands(void*v,int n){maxwell_set_num_bands(((H*)v)->d,n);}
void mk_set_k(void*v,double*k,double*G){double kk[3],g[9];memcpy(kk,k,24);memcpy(g,G,72);update_maxwell_data_k(((H*)v)->d,kk,g,g+3,g+6);}
void mk_set_parity(void*v,int p){set_maxwell_data_parity(((H*)v)->d,p);}
int mk_parity(void*v){return ((H*)v)->d->parity;}
int mk_zero_k(void*v){return ((H*)v)->d->zero_k;}
void mk_current_k(void*v,double*k){int i;for(i=0;i<3;++i)k[i]=((H*)v)->d->current_k[i];}
/* out: per planewave kmag, k2, m[3], n[3] */
void mk_get_kpG(void*v,double*o){H*h=v;int i;for(i=0;i<h->N;++i){k_data*k=h->d->k_plus_G+i;o[8*i]=k->kmag;o[8*i+1]=h->d->k_plus_G_normsqr[i];o[8*i+2]=k->mx;o[8*i+3]=k->my;o[8*i+4]=k->mz;o[8*i+5]=k->nx;o[8*i+6]=k->ny;o[8*i+7]=k->nz;}}
/* a: fft_output_size x 9 : m00 m11 m22 re01 im01 re02 im02 re12 im12 */
static void set_sym(symmetric_matrix*m,const double*a){m->m00=a[0];m->m11=a[1];m->m22=a[2];ASSIGN_ESCALAR(m->m01,a[3],a[4]);ASSIGN_ESCALAR(m->m02,a[5],a[6]);ASSIGN_ESCALAR(m->m12,a[7],a[8]);}
static void get_sym(const symmetric_matrix*m,double*a){a[0]=m->m00;a[1]=m->m11;a[2]=m->m22;a[3]=ESCALAR_RE(m->m01);a[4]=ESCALAR_IM(m->m01);a[5]=ESCALAR_RE(m->m02);a[6]=ESCALAR_IM(m->m02);a[7]=ESCALAR_RE(m->m12);a[8]=ESCALAR_IM(m->m12);}
static void set_means(maxwell_data*d){int i;double s=0,t=0;for(i=0;i<d->fft_output_size;++i){s+=d->eps_inv[i].m00+d->eps_inv[i].m11+d->eps_inv[i].m22; if(d->mu_inv)t+=d->mu_inv[i].m00+d->mu_inv[i].m11+d->mu_inv[i].m22;} d->eps_inv_mean=s/(3*d->fft_output_size); if(d->mu_inv)d->mu_inv_mean=t/(3*d->fft_output_size);}
void mk_set_eps_inv(void*v,double*a){H*h=v;int i;for(i=0;i<h->d->fft_output_size;++i)set_sym(h->d->eps_inv+i,a+9*i);set_means(h->d);}
void mk_set_mu_inv(void*v,double*a){H*h=v;int i; if(!a){free(h->d->mu_inv);h->d->mu_inv=NULL;h->d->mu_inv_mean=1;return;} if(!h->d->mu_inv)h->d->mu_inv=malloc(sizeof(symmetric_matrix)*h->d->fft_output_size);for(i=0;i<h->d->fft_output_size;++i)set_sym(h->d->mu_inv+i,a+9*i);set_means(h->d);}
void mk_get_eps_inv(void*v,double*a,double*mean){H*h=v;int i;for(i=0;i<h->d->fft_output_size;++i)get_sym(h->d->eps_inv+i,a+9*i);*mean=h->d->eps_inv_mean;}
void mk_get_mu_inv(void*v,double*a,double*mean){H*h=v;int i;for(i=0;i<h->d->fft_output_size;++i)get_sym(h->d->mu_inv+i,a+9*i);*mean=h->d->mu_inv_mean;}
int mk_has_mu(void*v){return ((H*)v)->d->mu_inv!=NULL;}
int mk_check(void*v,int neg){return check_maxwell_dielectric(((H*)v)->d,neg);}

/* op: 0 maxwell_operator,1 muinv,2 simple precond(in place on out),3 precond,4 precond2,5 parity constraint,6 zparity,7 yparity,8 zero_k constraint,
   9 ucross (u in arg),10 target_operator1 (arg0),11 target_operator (arg0),12 target precond, 13 target precond2, 14 set const bands, 15 H_from_B in place */
int mk_op(void*v,int op,int p,void*in,void*out,double*arg,double*eigenvals){
  H*h=v; evectmatrix X=EV2(h->N,p,in),Y=EV2(h->N,p,out),W; sqmatrix nul=SQ(0,0); maxwell_target_data*t=NULL; int r=0;
  W=EV2(h->N,p,malloc(sizeof(scalar)*2*h->N*p)); memset(W.data,0xff,sizeof(scalar)*2*h->N*p);
  if(op>=10&&op<=13)t=create_maxwell_target_data(h->d,arg[0]);
  switch(op){
  case 0:maxwell_operator(X,Y,h->d,0,W);break;
  case 1:maxwell_muinv_operator(X,Y,h->d,0,W);break;
  case 2:evectmatrix_copy(Y,X);maxwell_simple_precondition(Y,h->d,eigenvals);break;
  case 3:case 4:{ if(arg){nul=SQ(p,arg);} (op==3?maxwell_preconditioner:maxwell_preconditioner2)(X,Y,h->d,W,eigenvals,nul);break;}
  case 5:evectmatrix_copy(Y,X);maxwell_parity_constraint(Y,h->d);break;
  case 6:evectmatrix_copy(Y,X);maxwell_zparity_constraint(Y,h->d);break;
  case 7:evectmatrix_copy(Y,X);maxwell_yparity_constraint(Y,h->d);break;
  case 8:evectmatrix_copy(Y,X);maxwell_zero_k_constraint(Y,h->d);break;
  case 9:maxwell_ucross_op(X,Y,h->d,arg);break;
  case 10:maxwell_target_operator1(X,Y,t,0,W);break;
  case 11:maxwell_target_operator(X,Y,t,0,W);break;
  case 12:maxwell_target_preconditioner(X,Y,t,W,eigenvals,nul);break;
  case 13:maxwell_target_preconditioner2(X,Y,t,W,eigenvals,nul);break;
  case 14:evectmatrix_copy(Y,X);r=maxwell_zero_k_num_const_bands(Y,h->d);maxwell_zero_k_set_const_bands(Y,h->d);break;
  }
  if(t)destroy_maxwell_target_data(t);
  free(W.data); return r;
}
void mk_zparity(void*v,int p,void*x,double*o){H*h=v;double*r=maxwell_zparity(EV2(h->N,p,x),h->d);memcpy(o,r,8*p);free(r);}
void mk_yparity(void*v,int p,void*x,double*o){H*h=v;double*r=maxwell_yparity(EV2(h->N,p,x),h->d);memcpy(o,r,8*p);free(r);}
/* field: fft_output_size x nb x 3 complex, copied out of fft_data */
void mk_field(void*v,int which,int p,void*x,int b0,int nb,void*out){
  H*h=v; scalar_complex*f=(scalar_complex*)h->d->fft_data;
  if(which==0||which==1){maxwell_compute_d_from_H(h->d,EV2(h->N,p,x),f,b0,nb); if(which==1)maxwell_compute_e_from_d(h->d,f,nb);}
  else maxwell_compute_h_from_H(h->d,EV2(h->N,p,x),f,b0,nb);
  memcpy(out,f,sizeof(scalar_complex)*3*nb*h->d->fft_output_size);
}
void mk_H_from_B(void*v,int pb,int ph,void*B,void*Hm,int b0,int h0,int nb){H*h=v;maxwell_compute_H_from_B(h->d,EV2(h->N,pb,B),EV2(h->N,ph,Hm),(scalar_complex*)h->d->fft_data,b0,h0,nb);}
void mk_otherhalf_v(void*v,void*f,double*ph){maxwell_vectorfield_otherhalf(((H*)v)->d,f,ph[0],ph[1],ph[2]);}
void mk_otherhalf_c(void*v,void*f,double*ph){maxwell_cscalarfield_otherhalf(((H*)v)->d,f,ph[0],ph[1],ph[2]);}
void mk_otherhalf_r(void*v,double*f){maxwell_scalarfield_otherhalf(((H*)v)->d,f);}
void mk_dominant(void*v,int p,void*x,int band,double*k){H*h=v;maxwell_dominant_planewave(h->d,EV2(h->N,p,x),band,k);}
void mk_set_planewave(void*v,int p,void*x,int band,int*g,double*sp,double*axis){
#ifdef SCALAR_COMPLEX
  H*h=v;scalar s,pp;CASSIGN_SCALAR(s,sp[0],sp[1]);CASSIGN_SCALAR(pp,sp[2],sp[3]);maxwell_set_planewave(h->d,EV2(h->N,p,x),band,g,s,pp,axis);
#endif
}
/* full eigen-solve with mpb's own operator */
int mk_solve(void*v,int kind,int p,void*y,double*ev,int pre,int nwork,double tol,int flags,double target,int use_target){
  H*h=v; evectmatrix W[6]; int i,it=0; evectconstraint_chain*c=NULL; evectpreconditioner K; void*data=h->d; maxwell_target_data*t=NULL;
  for(i=0;i<nwork;++i){W[i]=EV2(h->N,p,malloc(sizeof(scalar)*2*h->N*p));memset(W[i].data,0xff,sizeof(scalar)*2*h->N*p);}
  c=evect_add_constraint(c,maxwell_parity_constraint,h->d);
  if(h->d->zero_k)c=evect_add_constraint(c,maxwell_zero_k_constraint,h->d);
  K=pre==0?NULL:pre==1?maxwell_preconditioner:maxwell_preconditioner2;
  if(use_target){t=create_maxwell_target_data(h->d,target);data=t;K=pre==0?NULL:pre==1?maxwell_target_preconditioner:maxwell_target_preconditioner2;}
  if(kind==0)eigensolver(EV2(h->N,p,y),ev,use_target?maxwell_target_operator:maxwell_operator,data,h->d->mu_inv?maxwell_muinv_operator:NULL,h->d,K,data,evectconstraint_chain_func,c,W,nwork,tol,&it,flags);
  else eigensolver_davidson(EV2(h->N,p,y),ev,use_target?maxwell_target_operator1:maxwell_operator,data,K,data,evectconstraint_chain_func,c,W,nwork,tol,&it,flags,0.0);
  evect_destroy_constraints(c); if(t)destroy_maxwell_target_data(t);
  for(i=0;i<nwork;++i)free(W[i].data);
  return it;
}

/* symmetric-matrix helpers */
void sm_eigs(double*a,double*e){symmetric_matrix m;set_sym(&m,a);maxwell_sym_matrix_eigs(e,&m);}
void sm_invert(double*a,double*o){symmetric_matrix m,r;set_sym(&m,a);maxwell_sym_matrix_invert(&r,&m);get_sym(&r,o);}
void sm_invert_inplace(double*a,double*o){symmetric_matrix m;set_sym(&m,a);maxwell_sym_matrix_invert(&m,&m);get_sym(&m,o);}
void sm_rotate(double*a,double*R,double*o){symmetric_matrix m,r;double q[3][3];set_sym(&m,a);memcpy(q,R,72);maxwell_sym_matrix_rotate(&r,&m,q);get_sym(&r,o);}
int sm_posdef(double*a){symmetric_matrix m;set_sym(&m,a);return maxwell_sym_matrix_positive_definite(&m);}
void sm_rotmat(double*n,double*o){double q[3][3];maxwell_rotation_matrix(q,n[0],n[1],n[2]);memcpy(o,q,72);}
void sm_apply(double*a,double*v,double*o){symmetric_matrix m;set_sym(&m,a);assign_symmatrix_vector((scalar_complex*)o,m,(scalar_complex*)v);}

/* dielectric set-up from analytic periodic media.  Geometry: a stack of
   "boxes" in lattice coordinates [lo,hi) (each coordinate in [-0.5,0.5)), later ones win. */
typedef struct { int nbox; const double *box; /* per box: lo3 hi3 sym9 */ const double *bg; int meanmode; int calls; } geo;
static const double *geo_at(geo*g,const real r[3]){int i,j;const double*c=g->bg;double q[3];for(j=0;j<3;++j){q[j]=r[j]-floor(r[j]+0.5+1e-9);}
  for(i=0;i<g->nbox;++i){const double*b=g->box+15*i;int in=1;for(j=0;j<3;++j)if(q[j]<b[j]-1e-9||q[j]>=b[3+j]-1e-9)in=0;if(in)c=b+6;}return c;}
static void geo_eps(symmetric_matrix*e,symmetric_matrix*ei,const real r[3],void*data){geo*g=data;g->calls++;set_sym(e,geo_at(g,r));maxwell_sym_matrix_invert(ei,e);}
static int geo_mean(symmetric_matrix*m,symmetric_matrix*mi,real n[3],real d1,real d2,real d3,real tol,const real r[3],void*data){
  geo*g=data;(void)d1;(void)d2;(void)d3;(void)tol;n[0]=n[1]=n[2]=0; if(g->meanmode==0)return 0; geo_eps(m,mi,r,data); return 1;}
void mk_set_dielectric(void*v,int*mesh,double*R,double*G,int nbox,double*box,double*bg,int meanmode,int mu){
  H*h=v;real RR[3][3],GG[3][3];geo g;memcpy(RR,R,72);memcpy(GG,G,72);g.nbox=nbox;g.box=box;g.bg=bg;g.meanmode=meanmode;g.calls=0;
  if(mu)set_maxwell_mu(h->d,mesh,RR,GG,geo_eps,geo_mean,&g);else set_maxwell_dielectric(h->d,mesh,RR,GG,geo_eps,geo_mean,&g);
}
