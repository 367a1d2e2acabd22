// C25, C26, C27: symplectic Gauss methods
#include "vf.h"
#include <cstdlib>
#include <cmath>
#include <string>
#include <algorithm>
#include "SymplecticRK.hpp"
using namespace odes;
#ifndef NN
#define NN 1
#endif
#ifndef NS
#define NS 2
#endif
#ifndef REALT
#define REALT double
#endif
typedef REALT R; static const int S=NS,n=NN;
static const bool LD=sizeof(R)>8;
static const double SC=LD?1024.:1.;      // long double residuals are scaled before they are compared as doubles
// |a-b|<=tol*(1+size): tol is in units of the format's precision
static void same(R a,R b,double tol,const char*m){ vf_close((double)((a-b)*SC),0.,tol*1e-16,m); }
// ---- C25
// node: the row sum
static R power(R x,int k){ R p=1; for(int i=0;i<k;i++) p*=x; return p; }
HARNESS(coeffs){
  GaussianMethod<S,R> G; R a[S*S],b[S],c[S]; for(int i=0;i<S;i++){ b[i]=G.b[i]; c[i]=0; for(int j=0;j<S;j++){ a[i*S+j]=G.A(i,j); c[i]+=a[i*S+j]; } }
  // conservation of quadratic invariants for every pair of stages
  for(int i=0;i<S;i++) for(int j=0;j<=i;j++) same(b[i]*a[i*S+j]+b[j]*a[j*S+i]-b[i]*b[j],0,3,"symplecticity identity for every pair of stages");
  double x[S]; for(int i=0;i<S;i++) x[i]=vf_double("x",-1,1);
  R q=0; for(int i=0;i<S;i++) for(int j=0;j<S;j++) q+=(b[i]*a[i*S+j]+b[j]*a[j*S+i]-b[i]*b[j])*x[i]*x[j];
  same(q,0,10,"quadratic invariants are conserved for all stage derivatives");
  // collocation: stage rows integrate every polynomial of degree <S up to the node, b every polynomial of degree <2S up to one
  double p[2*S]; for(int k=0;k<2*S;k++) p[k]=vf_double("p",-1,1);
  for(int i=0;i<S;i++){ { bool ds=true; for(int j=0;j<i;j++) if(c[j]==c[i]) ds=false; vf_assert(c[i]>0&&c[i]<1&&ds&&b[i]>0,"distinct nodes in (0,1), positive weights"); } R r=0; for(int k=0;k<S;k++){ R t=-power(c[i],k+1)/(k+1); for(int j=0;j<S;j++) t+=a[i*S+j]*power(c[j],k); r+=p[k]*t; } same(r,0,8*S,"collocation condition"); }
  R r=0; for(int k=0;k<2*S;k++){ R t=-(R)1/(k+1); for(int j=0;j<S;j++) t+=b[j]*power(c[j],k); r+=p[k]*t; } same(r,0,8*S,"quadrature condition up to degree 2s-1");
  vf_reach("end");
}
// after any sequence of step changes: the original coefficients multiplied by the new step
HARNESS(rescale){
  GaussianMethod<S,R> G,G0; int k=vf_param("n"); R h=1;
  for(int s=0;s<k;s++){ if(vf_param("sym")) h=vf_double("h",-4,4); else h=(R)(s%2?1:-2)/(R)(3+4*s); G.change_h(h);
    for(int i=0;i<S;i++){ same(G.b[i],h*G0.b[i],2,"weights are the original ones times the new step"); for(int j=0;j<S;j++) same(G.A(i,j),h*G0.A(i,j),2,"coefficients are the original ones times the new step"); } }
  // a long concrete history: rounding must not accumulate
  if(!vf_param("sym")){ for(int s=0;s<vf_param("chain");s++) G.change_h((R)(1+s%97)/(R)128+(R)(s%13)/(R)10); h=(R)3/(R)10; G.change_h(h); const R u=LD?(R)2e-19:(R)4e-16;
    for(int i=0;i<S;i++){ R d=G.b[i]-h*G0.b[i]; vf_assert(d<=u*G0.b[i]&&d>=-u*G0.b[i],"no drift of the weights over many step changes"); for(int j=0;j<S;j++){ R a=G0.A(i,j),e=G.A(i,j)-h*a; if(a<0) a=-a; vf_assert(e<=u*a&&e>=-u*a,"no drift of the coefficients over many step changes"); } } }
  vf_reach("end");
}
// ---- C26, C27: a step.  The right-hand side records its arguments and values.
static const int MAXC=400; static int calls,mode; static R in_[MAXC][n],out_[MAXC][n]; static double co[8];
struct Fo{ static const int n=NN; 
  void operator()(R*v,R*w){ vf_assert(calls<MAXC,"bounded number of calls"); vf_assert(v!=w,"no overlap"); R*p=in_[calls],*q=out_[calls]; ++calls;
    for(int i=0;i<n;i++) p[i]=v[i];
    for(int i=0;i<n;i++){
      if(mode==0) q[i]=vf_double("f",-1,1);                                  // arbitrary values
      else if(mode==1) q[i]=co[i];                                           // constant
      else if(mode==2){ q[i]=co[0]; if(i>0) q[i]=co[1]+co[2]*v[0]; if(i==2) q[i]+=co[3]*v[1]; if(i==3) q[i]=co[3]*power(v[0],2*S-1)+co[2]*v[0]; } // triangular: exact after finitely many iterations
      w[i]=q[i]; } } };
typedef SymplecticRK<Fo,S,R> SY;
static GaussianMethod<S,R>*G0;
static void setco(){ static const double d[8]={0.75,-0.4,0.6,0.9,0.5,-0.7,0.3,0.8}; int m=vf_param("mask"); for(int i=0;i<8;i++) co[i]=!((m>>i)&1)?d[i]:d[i]<0?vf_double("c",-1,1):vf_double("c",0.5,1); }
// one step: what the statement says about it.  first: first call of the step
static bool check(SY&Y,R h,R*u,bool fs,int itermax){
  R u0[n]; for(int i=0;i<n;i++) u0[i]=u[i]; int first=calls; bool f=fs; bool ok=Y.step(h,u,f);
  vf_assert(Y.maxIter()>=0&&Y.maxIter()<=itermax,"the iteration count never exceeds the maximum"); vf_assert(calls-first<=S*itermax,"no more evaluations than the iteration limit allows"); vf_assert((calls-first)%S==0,"one evaluation per stage and iteration");
  if(!ok){ vf_assert(calls-first==S*itermax,"failure is only reported after all iterations"); for(int i=0;i<n;i++) vf_assert(u[i]==u0[i],"a failed step leaves the state unchanged"); vf_reach("failed"); return false; }
  vf_reach("converged"); vf_assert(calls-first>=S,"at least one iteration");
  int l=calls-S; R res=0; for(int i=0;i<S;i++) for(int c=0;c<n;c++){ R t=u0[c]-in_[l+i][c]; for(int j=0;j<S;j++) t+=h*G0->A(i,j)*out_[l+j][c]; same(t,0,vf_param("ftol")*1e4,"the stages solve the Gauss equations"); }
  for(int c=0;c<n;c++){ R t=u0[c]-u[c]; for(int j=0;j<S;j++) t+=h*G0->b[j]*out_[l+j][c]; same(t,0,vf_param("ftol")*1e4,"the state is advanced by the quadrature of the stage derivatives"); }
  return true;
}
HARNESS(havoc){
  GaussianMethod<S,R> G; G0=&G; mode=0; calls=0; int m=vf_param("itermax"),ns=vf_param("n"); R u[n]; for(int i=0;i<n;i++) u[i]=vf_double("u",-1,1); SY Y(m); double h=vf_dparam("h");
  for(int s=0;s<ns;s++){ bool ok=check(Y,s==1?h/2:h,u,s==0||vf_param("first"),m); if(!ok) h*=0.5; }
  vf_reach("end");
}
// triangular systems: the iteration becomes stationary, the result is the exact solution of the polynomial system
static void tri(R*u,R h){ // exact solution after h; co, u of degree 1,2,3 (and 2S) in time
  R c0=co[0],x=u[0],u1[n]; u1[0]=x+c0*h;
  if(n>1) u1[1]=u[1]+h*(co[1]+co[2]*x)+co[2]*c0*h*h/2;
  if(n>2) u1[2]=u[2]+h*(co[1]+co[2]*x)+co[2]*c0*h*h/2+co[3]*(u[1]*h+(co[1]+co[2]*x)*h*h/2+co[2]*c0*h*h*h/6);
  if(n>3){ R t=0,hp=h; for(int k=0;k<=2*S-1;k++){ R bin=1; for(int q=0;q<k;q++) bin=bin*(2*S-1-q)/(q+1); t+=bin*power(x,2*S-1-k)*power(c0,k)*hp/(k+1); hp*=h; } u1[3]=u[3]+co[3]*t+co[2]*(x*h+c0*h*h/2); }
  for(int i=0;i<n;i++) u[i]=u1[i];
}
static R stepsize(int s){ int k=vf_param("hs"); return k==0?(R)0.5:k==1?(R)1:k==2?(s%2?(R)0.25:(R)0.5):k==3?(R)(s==2?-0.5:0.5):(R)(s<2?0.5:1.); }
HARNESS(triangular){
  GaussianMethod<S,R> G; G0=&G; mode=2; calls=0; int ns=vf_param("n"); R u[n],r[n]; for(int i=0;i<n;i++) r[i]=u[i]=vf_double("u",-1,1); setco();
  int lim=10; SY Y(lim);
  for(int s=0;s<ns;s++){ calls=0; bool ok=check(Y,stepsize(s),u,s==0||vf_param("first"),lim); vf_assert(ok,"an iteration that became stationary is reported as converged"); tri(r,stepsize(s)); for(int i=0;i<n;i++) same(u[i],r[i],vf_param("tol"),"a converged step delivers the solution of the Gauss equations"); }
  vf_reach("end");
}
// constant derivative; bit-precise in double: the accumulated state stays within one rounding of the exact sum
HARNESS(compensated){
  mode=1; int ns=vf_param("n"),pat=vf_param("pat"); double u0=vf_param("conc")?vf_dparam("ulo"):vf_double("u",vf_dparam("ulo"),vf_dparam("uhi")),c=vf_dparam("c"),T=0; co[0]=c; R u[1]={u0}; SY Y(5);
  for(int s=0;s<ns;s++){ double h=pat==0?1.:pat==1?(s%2?0.5:1.):(s%3==2?0.25:1.); calls=0; bool f=s==0||pat!=2; bool ok=Y.step(h,u,f); vf_assert(ok,"a constant derivative converges"); T+=h;
    double d=u[0]-u0,k=T*c; double e=d-k; for(int q=0;q<2;q++) vf_assert((q?e:-e)<=vf_dparam("tol"),"state plus stored correction equals the exact sum: the rounding error does not accumulate"); }
  vf_reach("end");
}
// ---- C27
static R predicted(R*q,R h,int i,int l,R*u,int last){ R y=u[l]; for(int j=0;j<S;j++) y+=h*q[i*S+j]*out_[last+j][l]; return y; }
HARNESS(layout){
  GaussianMethod<S,R> G; G0=&G; mode=vf_param("mode"); calls=0; R u[n]; for(int i=0;i<n;i++) u[i]=vf_double("u",-1,1); setco();
  R q[S*S]; extrapcoeffs<S,R>(q); int lim=8; SY Y(lim); R h=stepsize(0); bool f=true; if(vf_param("warm")){ R w[n]; for(int i=0;i<n;i++) w[i]=0.25*i; Y.step((R)0.25,w,f); }
  for(int s=0;s<2;s++){ R v[n]; calls=0; f=true; Y.step(h,u,f); int last=calls-S; for(int i=0;i<n;i++) v[i]=u[i]; f=false; int k=calls; Y.step(h,u,f);
    for(int i=0;i<S;i++) for(int l=0;l<n;l++) same(in_[k+i][l],predicted(q,h,i,l,v,last),vf_param("tol"),"every stage component starts from the same component of the state and of the stored derivatives");
    // a changed step starts from the state again
    k=calls; f=false; for(int i=0;i<n;i++) v[i]=u[i]; h*=0.5; Y.step(h,u,f); for(int i=0;i<S;i++) for(int l=0;l<n;l++) same(in_[k+i][l],v[l],0,"after a change of the step the stages start from the state"); }
  vf_reach("end");
}
// the predicted stages continue the collocation polynomial of the previous step
HARNESS(predict){
  GaussianMethod<S,R> G; R q[S*S],c[S]; extrapcoeffs<S,R>(q); double mx=1; for(int i=0;i<S;i++){ c[i]=0; for(int j=0;j<S;j++){ c[i]+=G.A(i,j); double t=(double)q[i*S+j]; if(t<0) t=-t; if(t>mx) mx=t; } }
  double p[S]; for(int k=0;k<S;k++) p[k]=vf_double("p",-1,1);
  for(int i=0;i<S;i++){ R r=0; for(int k=0;k<S;k++){ R t=-(power(1+c[i],k+1)-1)/(k+1); for(int j=0;j<S;j++) t+=q[i*S+j]*power(c[j],k); r+=p[k]*t; } same(r,0,16*S*(mx+power(2,S)),"the predicted stages continue the collocation polynomial of the previous step"); }
  Extrap<n,S,R> E; R hh=0.25; E.change_h(hh); for(int i=0;i<S*S;i++) same(E.q[i],q[i]*hh,2*mx,"prediction coefficients are the original ones times the step");
  vf_reach("end");
}
// three steps with and without extrapolation
HARNESS(influence){
  GaussianMethod<S,R> G; G0=&G; mode=2; R u[n],w[n]; for(int i=0;i<n;i++) w[i]=u[i]=vf_double("u",-1,1); setco(); int ns=vf_param("n");
  SY Y(10),Z(10); bool g=true,f=true; for(int s=0;s<ns;s++){ calls=0; g=true; bool a=Y.step(stepsize(s),u,g); calls=0; bool b=Z.step(stepsize(s),w,f); f=false; vf_assert(a&&b,"converged"); for(int i=0;i<n;i++) same(u[i],w[i],vf_param("tol"),"extrapolated starting values do not change the result of a converged step"); }
  vf_reach("end");
}
