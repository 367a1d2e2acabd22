// C23, C24: SDIRK for linear and affine problems
#include "vf.h"
#include "series.h"
#include <cstdlib>
#include <cmath>
#include <string>
#include "MacrosForCompilers.hpp"
#include "AllocateDestroyVector.hpp"
#include "EulerImp.hpp"
#include "CrN.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "RKRS.hpp"
#include "Sdirkl.hpp"
using namespace odes;
static double dabs_(double a){ return a>=0?a:-a; }
#ifndef NN
#define NN 1
#endif
#ifndef METHOD
#define METHOD RKMethod1
#endif
typedef METHOD M; static const int s=M::nstage;
static double num(int i,int j,int q){ int k=(i*7+j*13+q*29+i*j*5)%17; return (k-8)/4.0; }
// the operator: every invertible I-alpha*J is given by its inverse W, so that J=(I-W^-1)/alpha
static double W[NN][NN]; static double alpha; static int inits,applies;
struct Op{ void init(int n,double a){ vf_assert(n==NN,"operator size"); alpha=a; ++inits; }
  void apply(double in[],double out[]){ ++applies; vf_assert(in!=out,"arguments of the operator do not overlap"); for(int i=0;i<NN;i++){ double t=0.; for(int j=0;j<NN;j++) t+=W[i][j]*in[j]; out[i]=t; } } };
// reference: k_i of the tableau (A, b=D*A), multiplied by dt; q_i=W(J dt(u+sum a_ij k_j)+dt phi), with W J dt=(W-I)/A_ii
static void reference(M&m,double*u,double*dtphi,double*r){
  double k[s][NN],b[s]; for(int j=0;j<s;j++){ b[j]=0; for(int i=j;i<s;i++) b[j]+=m.D[i]*m.A[i][j]; }
  for(int i=0;i<s;i++){ double v[NN]; for(int c=0;c<NN;c++){ v[c]=u[c]; for(int j=0;j<i;j++) v[c]+=m.A[i][j]*k[j][c]; }
    for(int c=0;c<NN;c++){ double t=-v[c]; for(int d=0;d<NN;d++) t+=W[c][d]*v[d]; t/=m.A[i][i]; for(int d=0;d<NN;d++) t+=W[c][d]*dtphi[d]; k[i][c]=t; } }
  for(int c=0;c<NN;c++){ r[c]=u[c]; for(int i=0;i<s;i++) r[c]+=b[i]*k[i][c]; }
}
static void setW(int mask){ for(int i=0;i<NN;i++) for(int j=0;j<NN;j++) W[i][j]=(mask>>(i*NN+j))&1?vf_double("w",-1,1):num(i,j,3)/4; }
// ---- C23: steps, linear (affine=0) and affine, several in a row on the same object
HARNESS(step){
  int af=vf_param("affine"),n=vf_param("n"); double dt=vf_param("symdt")?vf_double("dt",0.01,10.):vf_dparam("dt"); M m; setW(vf_param("mask")); inits=applies=0;
  double u[NN],phi[NN],dphi[NN],r[NN]; for(int i=0;i<NN;i++){ u[i]=vf_double("u",-2,2); phi[i]=af?vf_double("phi",-2,2):0.; dphi[i]=dt*phi[i]; r[i]=u[i]; }
  double sv[NN]; for(int i=0;i<NN;i++) sv[i]=phi[i];
  { Sdirkl<M,Op> S(NN,dt,af!=0); vf_assert(inits==1,"the operator is initialised once"); vf_close(alpha,dt*m.A[0][0],1e-12,"the operator is initialised with step size times diagonal");
    for(int k=0;k<n;k++){ if(af) S.step(u,phi); else S.step(u); vf_assert(applies==s*(k+1),"one linear solve per stage"); double q[NN]; reference(m,r,dphi,q);
      for(int i=0;i<NN;i++){ r[i]=q[i]; vf_close(u[i],r[i],1e-9,"a step equals the Runge-Kutta step of the tableau"); vf_close(phi[i],sv[i],0.,"the forcing is not modified"); } }
    // an earlier step leaves nothing behind: restart from other data
    if(vf_param("again")){ double w[NN],ps2[NN],keep[NN],dps2[NN]; for(int i=0;i<NN;i++){ w[i]=r[i]=num(i,1,1); ps2[i]=af?num(i,2,5):0.; dps2[i]=dt*ps2[i]; keep[i]=u[i]; } if(af) S.step(w,ps2); else S.step(w); double q[NN]; reference(m,r,dps2,q); for(int i=0;i<NN;i++){ vf_close(w[i],q[i],1e-9,"a step does not depend on data left by earlier ones"); vf_close(u[i],keep[i],0.,"another array is not modified"); }
      for(int i=0;i<NN;i++) r[i]=u[i]=num(i,3,2); if(af) S.step(u,phi); else S.step(u); reference(m,r,dphi,q); for(int i=0;i<NN;i++) vf_close(u[i],q[i],1e-9,"a step does not depend on data left by earlier ones"); vf_obs("u",u[0]); } }
  vf_reach("end");
}
// two solvers of different kinds alive at the same time
HARNESS(two){
  M m; setW(vf_param("mask")); double u[NN],v[NN],phi[NN],z[NN],r[NN],q[NN],dphi[NN]; for(int i=0;i<NN;i++){ u[i]=vf_double("u",-2,2); v[i]=vf_double("v",-2,2); phi[i]=vf_double("phi",-2,2); z[i]=0; dphi[i]=phi[i]*0.5; }
  { Sdirkl<M,Op> S(NN,0.5,false); Sdirkl<M,Op>*T=new Sdirkl<M,Op>(NN,0.5,true); reference(m,u,z,r); reference(m,v,dphi,q); T->step(v,phi); S.step(u); delete T; for(int i=0;i<NN;i++){ vf_close(u[i],r[i],1e-9,"a step equals the Runge-Kutta step of the tableau"); vf_close(v[i],q[i],1e-9,"a step equals the Runge-Kutta step of the tableau"); } 
    reference(m,r,z,q); S.step(u); for(int i=0;i<NN;i++) vf_close(u[i],q[i],1e-9,"a step equals the Runge-Kutta step of the tableau"); }
  int k=0; { Sdirkl<M,Op> S(NN,0.5,false); for(int i=0;i<NN;i++) q[i]=u[i]; try{ S.step(u,phi); }catch(GenericException&){ k|=1; } for(int i=0;i<NN;i++) vf_close(u[i],q[i],0.,"a refused call leaves the state alone"); }
  { Sdirkl<M,Op> S(NN,0.5,true); try{ S.step(u); }catch(GenericException&){ k|=2; } for(int i=0;i<NN;i++) vf_close(u[i],q[i],0.,"a refused call leaves the state alone"); }
  vf_assert(k==3,"calling the variant that does not match the declared kind throws"); vf_reach("end");
}
// steady state of the forced problem: u=W v, dt*phi=-(W-I)v/gamma gives J u+phi=0
HARNESS(steady){
  M m; setW(vf_param("mask")); double dt=vf_dparam("dt"),u[NN],v[NN],phi[NN],u0[NN]; for(int i=0;i<NN;i++) v[i]=vf_double("v",-2,2);
  for(int i=0;i<NN;i++){ double t=0.; for(int j=0;j<NN;j++) t+=W[i][j]*v[j]; u[i]=u0[i]=t; phi[i]=-(t-v[i])/m.A[0][0]/dt; }
  { Sdirkl<M,Op> S(NN,dt,true); for(int k=0;k<2;k++){ S.step(u,phi); for(int i=0;i<NN;i++) vf_close(u[i],u0[i],1e-9,"a steady state of the forced problem is left unchanged"); } }
  vf_reach("end");
}
// ---- C24
HARNESS(tableau){
  M m; int p=vf_param("order"); double b[s],c[s]; vf_assert(m.A[0][0]>0,"the diagonal is positive");
  for(int j=0;j<s;j++){ b[j]=0; for(int i=j;i<s;i++) b[j]+=m.D[i]*m.A[i][j]; c[j]=0; for(int i=0;i<=j;i++) c[j]+=m.A[j][i]; vf_close(m.A[j][j],m.A[0][0],0.,"all diagonal entries are equal"); vf_close(c[j],m.S[j],2e-14*(1+dabs_(c[j])),"row sums match the abscissae"); }
  double t=1e-13*20; double r[9]={-1,-0.5,-1./3,-1./6,-0.25,-0.125,-1./12,-1./24,0};
  for(int i=0;i<s;i++){ r[0]+=b[i]; r[1]+=b[i]*c[i]; r[2]+=b[i]*c[i]*c[i]; r[4]+=b[i]*c[i]*c[i]*c[i];
    for(int j=0;j<=i;j++){ r[3]+=b[i]*m.A[i][j]*c[j]; r[5]+=b[i]*c[i]*m.A[i][j]*c[j]; r[6]+=b[i]*m.A[i][j]*c[j]*c[j]; for(int k=0;k<=j;k++) r[7]+=b[i]*m.A[i][j]*m.A[j][k]*c[k]; } }
  int n[5]={0,1,2,4,8}; for(int q=0;q<n[p];q++) vf_close(r[q],0.,t,"classical order conditions");
  vf_reach("end");
}
#if NN==1
// the step of the solver agrees with the exact solution of u'=lambda u+phi up to the documented order
HARNESS(order){
  M m; int p=vf_param("order"); double u0=vf_double("u",-2,2),f0=vf_double("f",-2,2),l=vf_double("l",-2,2); int af=vf_param("affine");
  series_close(1,p,1e-11,"the step agrees with the exact solution up to the documented order",[&](double e,double*r){
    double g=m.A[0][0],x=g*l*e,w=1.; if(vf_symbolic()){ w=1.+x*(1.+x*(1.+x*(1.+x))); } else w=1./(1.-x);
    W[0][0]=w; double u[1]={u0},phi[1]={f0*e}; Sdirkl<M,Op> S(1,1.,af!=0); if(af) S.step(u,phi); else S.step(u);
    double z=l*e,ex=u0*(1.+z*(1.+z/2*(1.+z/3*(1.+z/4)))); if(af) ex+=f0*e*(1.+z/2*(1.+z/3*(1.+z/4))); r[0]=u[0]-ex; });
  vf_reach("end");
}
// amplification on the negative real axis: W=1/(1-gamma z) runs through (0,1]
HARNESS(stability){
  W[0][0]=vf_double("w",0,1); double u[1]={1.}; { Sdirkl<M,Op> S(1,1.,false); S.step(u); vf_close(u[0],0.,1+1e-9,"amplification bounded by one on the negative real axis"); vf_obs("u",u[0]); } 
  double W0=W[0][0]; W[0][0]=W0; { Sdirkl<M,Op> S(1,1.,true); double v[1]={1.},ph[1]={0.}; S.step(v,ph); vf_close(v[0],u[0],1e-12,"the affine step with zero forcing is the linear step"); }
  vf_reach("end");
}
#endif
