// C28: lifetimes.  Every object is built, configured, used, interrupted by an exception at a
// symbolic point, used again and destroyed; the engine checks every access.
#include "vf.h"
#include <cstdlib>
#include <cmath>
#include <string>
#ifndef NN
#define NN 2
#endif
#ifndef KL
#define KL (NN-1)
#endif
#ifndef KU
#define KU (NN-1)
#endif
#ifndef HES
#define HES false
#endif
#ifndef NUMJ
#define NUMJ 0
#endif
static const int n=NN;
struct Broken{ int where; Broken(int w):where(w){} };
static int left_;                                       // calls left before one of them fails (<0: none does)
static void tick(){ if(left_==0){ left_=-1; throw Broken(1); } if(left_>0) --left_; }
static double num(int i,int j,int s){ int k=(i*7+j*13+s*29+i*j*5)%17; return (k-8)/4.0; }
static double poke;                                     // keeps values alive
#if LIFE==1 || LIFE==2
#if LIFE==1
#include "Rodascc.hpp"
#define SOLVER Rodascc
#else
#include "Radau5cc.hpp"
#define SOLVER Radau5cc
#endif
#include "MatrixType.hpp"
using namespace odes;
typedef Matrixtype<NN,KL,KU>::Matrix JM;
static double stiff,sing;
struct P{
  static const int n=NN,nsub=KL,nsup=KU; static const bool Hessenberg=HES,ComputeJacobianNumerically=NUMJ,autonomous=false; static const int use=LIFE==1?1:0;
#if LIFE==1
  static const int method=1; static const bool use_DF_t=!NUMJ;
  void DF_t(double t,const fortranVectorF<NN>&y,fortranVectorF<NN>&d){ tick(); for(int i=1;i<=NN;i++) d(i)=0.25; }
#endif
  void operator()(double t,double*in,double*out){ tick(); for(int i=0;i<NN;i++){ out[i]=0.25*t-stiff*in[i]*(1+in[i]*in[i]); if(i>0&&KL>0) out[i]+=in[i-1]; if(i<NN-1&&KU>0) out[i]-=0.5*in[i+1]; } }
  void Jacobian(double t,fortranVector y,fortranVector Fy,JM&J){ tick(); for(int i=1;i<=NN;i++) for(int j=1;j<=NN;j++) if(j>=i-KL&&j<=i+KU) J(i,j)=i==j?(sing!=0.?sing:-stiff*(1+3*y(i)*y(i))):j==i-1?1.:j==i+1?-0.5:0.; fortranVector c(NN); c=y; poke+=c(1)+Fy(NN); }
};
typedef SOLVER<P> S;
static void configure(S&s,int c){
  if(c&1){ s.setSafe(0.8); s.setGustafssonTest(false); }
  if(c&2) s.setNmax(3);
  if(c&4){ s.performOnlyOneStep(true);
#if LIFE==2
    s.setMaxIterationsNewton(1); s.setFacrFacl(4.,0.2); s.setRecomputeJacobianTreshold(0.1); s.setFnewt(0.02);
#endif
  }
  if(c&8){ double*a=new double[NN],*r=new double[NN]; for(int i=0;i<NN;i++){ a[i]=1e-3; r[i]=1e-3*(i+1); } s.setTestPolicy(false,a,r); delete[] a; delete[] r; }
}
static int go(S&s,double x0,double xe,double h,double amp){
  double*y=new double[NN]; for(int i=0;i<NN;i++) y[i]=amp*(1+0.5*i); double x=x0; int r=0;
  try{ s(h,x,xe,y); }catch(Broken&){ r=1; }catch(OdesException&){ r=2; }
  for(int i=0;i<NN;i++) poke+=y[i]; if(poke==123.456) vf_reach("?"); if(s.getNstep()+s.getNaccpt()+s.getNrejct()+s.getNJac()+s.getNdec()<0||s.getLastTimeStep()==99.) vf_reach("?"); if(r==0) poke+=s.Jacobian()(1,1);
  delete[] y; return r;
}
static void look(S&s){ if(s.getNstep()+s.getNaccpt()+s.getNrejct()+s.getNJac()+s.getNdec()!=0) vf_reach("?"); if(s.getfirstAcceptedStep()==99.||s.getLastTimeStep()==99.) vf_reach("?");
#if LIFE==2
 if(s.getNewt()+s.getNfoncCalled()!=0) vf_reach("?");
#endif
}
static S*build(bool same){ double*a=new double[same?1:NN],*r=new double[same?1:NN]; for(int i=0;i<(same?1:NN);i++){ a[i]=1e-4; r[i]=1e-3; } S*s=new S(same,a,r); delete[] a; delete[] r; look(*s); return s; }
// an exception at an arbitrary call of user code, then a full integration on the same object
HARNESS(thrown){
  int K=vf_param("K"); stiff=vf_dparam("stiff"); sing=0.; bool same=vf_param("same"); S*s=build(same); configure(*s,vf_param("cfg")); left_=vf_int("k",0,K);
  int r=go(*s,0.125,vf_dparam("xe"),vf_dparam("h"),vf_dparam("amp")); if(r==1) vf_reach("thrown"); if(r==2) vf_reach("refused"); if(r==0) vf_reach("finished");
  left_=-1; go(*s,vf_param("back")?1.:0.,vf_param("back")?0.25:0.5,0.125,1.); delete s; vf_reach("end");
}
// every configuration, freely chosen
HARNESS(config){
  stiff=1.; sing=0.; left_=-1; int c=vf_int("cfg",0,15); bool same=vf_decide(vf_int("same",0,1)==1); int cc=0; for(int k=0;k<16;k++) if(c==k) cc=k; S*s=build(same); configure(*s,cc); go(*s,0.,vf_dparam("xe"),0.25,1.); go(*s,0.5,0.125,0.125,0.5); delete s; vf_reach("end");
}
// a singular iteration matrix ends the integration
HARNESS(singular){
  stiff=1.; left_=-1; double h=0.5; S*s=build(true); sing=0.; go(*s,0.,0.25,0.25,1.); sing=vf_double("j",1.,12.); left_=2+(P::use); int r=go(*s,0.,1.,h,1.); left_=-1; if(r==2) vf_reach("singular"); sing=0.; go(*s,0.,0.25,0.25,1.); delete s; vf_reach("end");
}
// two solvers alive at the same time, the first destroyed first
HARNESS(pair){
  stiff=vf_dparam("stiff"); sing=0.; S*s=build(true),*t=build(false); left_=vf_int("k",0,vf_param("K")); go(*s,0.,0.5,0.25,1.); go(*t,0.,0.5,0.25,1.); delete s; left_=-1; go(*t,0.5,1.,0.25,1.); delete t; vf_reach("end");
}
// every initial value and every right-hand side value
struct PH{ static const int n=NN,nsub=KL,nsup=KU; static const bool Hessenberg=HES,ComputeJacobianNumerically=false,autonomous=true;
#if LIFE==1
  static const int method=2; static const bool use_DF_t=false; void DF_t(double t,const fortranVectorF<NN>&y,fortranVectorF<NN>&d){}
#endif
  void operator()(double t,double*in,double*out){ tick(); for(int i=0;i<NN;i++) out[i]=vf_double("f",-1,1); }
  void Jacobian(double t,const fortranVector&y,const fortranVector&Fy,JM&J){ for(int i=1;i<=NN;i++) for(int j=1;j<=NN;j++) if(j>=i-KL&&j<=i+KU) J(i,j)=num(i,j,1)/4-(i==j); } };
HARNESS(havoc){
  double at=vf_dparam("atol"),rt=vf_dparam("atol"); left_=vf_int("k",0,vf_param("K")); double*y=new double[NN]; for(int i=0;i<NN;i++) y[i]=vf_double("y",-1,1); double x=0.;
  { SOLVER<PH> s(true,&at,&rt); s.performOnlyOneStep(true); s.setNmax(1); try{ s(0.25,x,1.,y); }catch(Broken&){ vf_reach("thrown"); }catch(OdesException&){ vf_reach("refused"); } }
  if(y[0]==55.) vf_reach("?"); delete[] y; vf_reach("end");
}
#endif
#if LIFE==3
#include "MacrosForCompilers.hpp"
#include "AllocateDestroyVector.hpp"
#include "Rock4.hpp"
using namespace odes;
static double rad;
struct FN{ int sz; int size() const{ return sz; } double rho(){ tick(); return rad; } void operator()(double*in,double*out){ tick(); for(int i=0;i<sz;i++) out[i]=-in[i]*(1+i)+(i>0?in[i-1]:0.25); } };
typedef Rock4<FN> S;
static int go(S&s,int m,double t,double te,double h){ double*y=allocDoubleArray(m); for(int i=0;i<m;i++) y[i]=1+0.5*i; int r=0; try{ s(y,t,te,h); }catch(Broken&){ r=1; }catch(OdesException&){ r=2; }
  for(int i=0;i<m;i++) poke+=y[i]; if(poke==1234.5||s.NbSteps()+s.NbAccepted()+s.NbRejected()+s.NbRhsComputed()<0) vf_reach("?"); destroyDoubleArray(y); return r; }
HARNESS(thrown){
  rad=vf_dparam("rho"); FN F; F.sz=NN; S*s=new S(F); if(s->NbStages()+s->NbSteps()+s->NbAccepted()+s->NbRejected()+s->NbRhsComputed()!=0||s->LastAcceptedTimeStep()==99.) vf_reach("?"); double tol=vf_dparam("tol"); if(vf_param("set")) s->setTolerances(tol,tol); left_=vf_int("k",0,vf_param("K"));
  int r=go(*s,NN,0.,vf_dparam("te"),vf_dparam("h")); if(r==1) vf_reach("thrown"); if(r==0) vf_reach("finished"); left_=-1; go(*s,NN,0.,0.25,0.25); if(s->nbUnkn()!=NN) vf_reach("?"); delete s; vf_reach("end");
}
HARNESS(refused){ rad=0.; FN F; F.sz=NN; { S s(F); left_=-1; double h=vf_double("h",0,9e-16); int r=go(s,NN,0.,1.,h); if(r==2) vf_reach("refused"); go(s,NN,0.,0.25,0.25); } vf_reach("end"); }
HARNESS(sizes){ left_=-1; rad=0.; int m=vf_int("m",1,NN); for(int k=1;k<=NN;k++) if(m==k){ FN F,G; F.sz=k; G.sz=NN+1-k; S*s=new S(F),*t=new S(G); go(*s,k,0.,0.5,0.25); go(*t,NN+1-k,0.,0.5,0.5); delete s; go(*t,NN+1-k,0.5,0.75,0.25); delete t; } vf_reach("end"); }
#endif
#if LIFE==4
#include "MacrosForCompilers.hpp"
#include "AllocateDestroyVector.hpp"
#include "Rock4L.hpp"
using namespace odes;
static double rad;
struct FL{ int sz; int size() const{ return sz; } double rho(){ tick(); return rad; }
  void ap(double*in,double*t){ tick(); for(int i=0;i<sz;i++) t[i]=-(1+i)*in[i]+(i>0?in[i-1]:0.); }
  void operator()(double*in,double*s,double a,double b,double*out){ double t[NN]; ap(in,t); for(int i=0;i<sz;i++) out[i]=a*t[i]+b*s[i]; }
  void operator()(double*in,double*s,double a,double b,double*g,double*out){ double t[NN]; ap(in,t); for(int i=0;i<sz;i++) out[i]=a*(t[i]+g[i])+b*s[i]; }
  void operator()(double*in,double*s,double a,double b,double c,double*out){ double t[NN]; ap(in,t); for(int i=0;i<sz;i++) out[i]=a*t[i]+b*in[i]+c*s[i]; }
  void operator()(double*in,double*s,double a,double b,double c,double*g,double*out){ double t[NN]; ap(in,t); for(int i=0;i<sz;i++) out[i]=a*(t[i]+g[i])+b*in[i]+c*s[i]; } };
typedef Rock4L<FL,false> SL; typedef Rock4L<FL,true> SA;
static void call(SL&s,double*y,double*b,double t,double te,double h){ s(y,t,te,h); }
static void call(SA&s,double*y,double*b,double t,double te,double h){ s(y,b,t,te,h); }
template<class T> static int go(T&s,int m,double t,double te,double h){ double*y=allocDoubleArray(m),*b=allocDoubleArray(m); for(int i=0;i<m;i++){ y[i]=1+i; b[i]=0.5; } int r=0; try{ call(s,y,b,t,te,h); }catch(Broken&){ r=1; }catch(OdesException&){ r=2; }
  for(int i=0;i<m;i++) poke+=y[i]+b[i]; if(poke==1234.5||s.NbSteps()+s.NbRhsComputed()<0||s.Time()==77.||s.nbUnkn()!=m) vf_reach("?"); destroyDoubleArray(y); destroyDoubleArray(b); return r; }
template<class T> static void thrown(){ rad=vf_dparam("rho"); FL F; F.sz=NN; T*s=new T(F); if(s->NbStages()+s->NbSteps()+s->NbRhsComputed()!=0||s->Time()==99.) vf_reach("?"); left_=vf_int("k",0,vf_param("K")); int r=go(*s,NN,0.,vf_dparam("te"),vf_dparam("h")); if(r==1) vf_reach("thrown"); if(r==0) vf_reach("finished"); left_=-1; go(*s,NN,0.,0.25,0.25); rad=1e9; r=go(*s,NN,0.,1.,1.); if(r==2) vf_reach("refused"); delete s; vf_reach("end"); }
HARNESS(thrown_l){ thrown<SL>(); }
HARNESS(thrown_a){ thrown<SA>(); }
HARNESS(sizes){ left_=-1; rad=0.; int m=vf_int("m",1,NN); for(int k=1;k<=NN;k++) if(m==k){ FL F,G; F.sz=k; G.sz=NN+1-k; SL*s=new SL(F); SA*t=new SA(G); go(*s,k,0.,0.5,0.25); go(*t,NN+1-k,0.,0.5,0.5); delete s; go(*t,NN+1-k,0.5,0.75,0.25); delete t; } vf_reach("end"); }
#endif
#if LIFE==5
#include "MacrosForCompilers.hpp"
#include "AllocateDestroyVector.hpp"
#include "EulerImp.hpp"
#include "CrN.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "RKRS.hpp"
#include "Sdirkl.hpp"
using namespace odes;
struct Op{ double*d; int m; Op():d(0),m(0){} ~Op(){ delete[] d; } void init(int k,double a){ tick(); d=new double[k]; m=k; for(int i=0;i<k;i++) d[i]=1/(1+a*(i+1)); } void apply(double in[],double out[]){ tick(); for(int i=0;i<m;i++) out[i]=d[i]*in[i]; } };
template<class M> static int go(Sdirkl<M,Op>&s,bool af,int m){ double*u=new double[m],*p=new double[m]; for(int i=0;i<m;i++){ u[i]=1+i; p[i]=0.5; } int r=0; try{ if(af) s.step(u,p); else s.step(u); }catch(Broken&){ r=1; }catch(GenericException&){ r=2; } for(int i=0;i<m;i++) poke+=u[i]; if(poke==1234.5) vf_reach("?"); delete[] u; delete[] p; return r; }
template<class M> static void life(){ for(int af=0;af<2;af++){ left_=-1; Sdirkl<M,Op>*s=0,*t=0; left_=vf_int("k",0,vf_param("K")); bool ok=true; try{ s=new Sdirkl<M,Op>(NN,0.25,af); }catch(Broken&){ ok=false; vf_reach("ctor"); } if(!ok) continue;
    for(int q=0;q<2;q++){ int r=go(*s,af,NN); if(r==1) vf_reach("thrown"); } left_=-1; if(go(*s,!af,NN)==2) vf_reach("refused"); t=new Sdirkl<M,Op>(NN+1,0.5,!af); go(*s,af,NN); delete s; go(*t,!af,NN+1); delete t; } vf_reach("end"); }
HARNESS(euler){ life<EulerImp>(); }
HARNESS(crn){ life<CrN>(); }
HARNESS(rk1){ life<RKMethod1>(); }
HARNESS(rk2){ life<RKMethod2>(); }
HARNESS(rkrs){ life<RKRS>(); }
#endif
#if LIFE==6
#include "SymplecticRK.hpp"
using namespace odes;
#ifndef REALT
#define REALT double
#endif
#ifndef NS
#define NS 3
#endif
typedef REALT R;
struct Fo{ static const int n=NN; void operator()(R*v,R*w){ tick(); for(int i=0;i<n;i++) w[i]=i%2?-v[i-1]:(i+1<n?v[i+1]:R(-0.5)*v[i]); } };
typedef SymplecticRK<Fo,NS,R> S;
static int go(S&s,R h,bool fs,R*u){ int r=0; try{ bool f=fs; r=s.step(h,u,f)?0:2; }catch(Broken&){ r=1; } if(r!=1&&(s.maxIter()>1000||s.lastdiff()==-5)) vf_reach("?"); return r; }
HARNESS(thrown){
  R*u=new R[NN]; for(int i=0;i<NN;i++) u[i]=1+R(i)/2; S*s=new S(vf_param("itermax")); if(s->maxIter()!=0||s->lastdiff()==99) vf_reach("?"); bool fs=true; left_=vf_int("k",0,vf_param("K"));
  for(int q=0;q<3;q++){ int r=go(*s,q==2?R(0.125):R(0.25),fs,u); if(r==1){ vf_reach("thrown"); fs=true; } else fs=false; if(r==2) vf_reach("failed"); if(r==0) vf_reach("converged"); }
  left_=-1; go(*s,R(0.125),fs,u); for(int i=0;i<NN;i++) if(u[i]==1234) vf_reach("?"); delete s; delete[] u; vf_reach("end");
}
// the very first step has the step length the object starts with
HARNESS(unit){ left_=-1; R*u=new R[NN]; for(int i=0;i<NN;i++) u[i]=vf_double("u",-1,1); { S s(vf_param("itermax")); go(s,R(1),true,u); go(s,R(1),false,u); if(u[0]==55) vf_reach("?"); } delete[] u; vf_reach("end"); }
#endif
#if LIFE==7
#include "fortranVector.hpp"
#include "fortranArray.hpp"
#include "fortranComplexArray.hpp"
#include "fortranRectangularArray.hpp"
#include "fortranRectangularComplexArray.hpp"
#include "OdesException.hpp"
using namespace odes;
typedef fortranRectangularArray<NN,KL,KU> BA; typedef fortranRectangularComplexArray<NN,KL,KU> BC; typedef fortranArray<NN> FA; typedef fortranComplexArray<NN> FC; typedef fortranVectorF<NN> FV;
static void fill(FV&v){ for(int i=1;i<=NN;i++) v(i)=i; }
// a history of operations on vectors, each step freely chosen
HARNESS(vectors){
  int steps=vf_param("steps"); FV*v[3]; for(int k=0;k<3;k++){ v[k]=new FV; fill(*v[k]); } double*raw=new double[NN]; for(int i=0;i<NN;i++) raw[i]=vf_double("r",-1,1);
  for(int s=0;s<steps;s++){ int op=vf_int("op",0,7),a=s%3,b=(s+1)%3;
    if(op==0) v[a]->switchadr(*v[b]); else if(op==1){ delete v[a]; v[a]=new FV; fill(*v[a]); } else if(op==2) *v[a]=*v[b]; else if(op==3) *v[a]=raw; else if(op==4){ fortranVector w(raw,NN); *v[a]+=*v[b]; w=*v[a]; } else if(op==5){ fortranVector w(NN),z; z.setsize(NN); w=*v[a]; w+=*v[b]; if(w.get_size()!=NN) vf_reach("?"); } else if(op==6) v[a]->switchadr(*v[a]); else { fortranVector ad(&(*v[a]),NN); v[b]->setsum2(ad,*v[(s+2)%3]); } }
  for(int k=0;k<3;k++){ for(int i=1;i<=NN;i++) if((*v[k])(i)==1e5) vf_reach("?"); delete v[k]; } delete[] raw; vf_reach("end");
}
HARNESS(arrays){
  FA*a=new FA; for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++) (*a)(i,j)=vf_double("a",-1,1); FA*b=new FA(*a); delete a; FA c(*b),d; d.equal_minus(c); d.addDiag(2.); delete b; { FA e(d),f(e); for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++) if(f(i,j)+c(i,j)==77.) vf_reach("?"); }
  BA*p=new BA,*q=new BA; for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++) if(j>=i-KL&&j<=i+KU) (*p)(i,j)=vf_double("b",-1,1); q->equal_minus(*p); delete p; q->addDiag(1.); for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++) if(j>=i-KL&&j<=i+KU) if((*q)(i,j)==77.) vf_reach("?"); delete q;
  FC*x=new FC; BC*y=new BC; for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++){ x->set(i,j,1.,2.); if(x->Re(i,j)+x->Im(i,j)==77.) vf_reach("?"); if(j>=i-KL&&j<=i+KU){ y->set(i,j,vf_double("c",-1,1)); if(y->Re(i,j)+y->Im(i,j)==77.) vf_reach("?"); } } delete x; delete y; vf_reach("end");
}
// printing only looks at what is there
static void init(FA&a){ for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++) a(i,j)=i+j; }
static void init(FC&a){ for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++) a.set(i,j,i+j,i-j); }
static void init(BA&a){ for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++) if(j>=i-KL&&j<=i+KU) a(i,j)=i+j; }
static void init(BC&a){ for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++) if(j>=i-KL&&j<=i+KU) a.set(i,j,i+j,i-j); }
template<class T> static void pr(){ { T a; init(a); a.print(); } vf_reach("end"); }
HARNESS(print_full){ pr<FA>(); }
HARNESS(print_cfull){ pr<FC>(); }
HARNESS(print_band){ pr<BA>(); }
HARNESS(print_cband){ pr<BC>(); }
HARNESS(print_vec){ { fortranVector v(NN); for(int i=1;i<=NN;i++) v(i)=i; v.print(); FV w; fill(w); w.print(); } vf_reach("end"); }
HARNESS(alloc){ for(int k=0;k<=9;k++){ double*p=allocDoubleArray(k),*q=allocDoubleArray(k+1); for(int i=0;i<k;i++){ p[i]=i; q[i+1]=p[i]; } q[0]=0; destroyDoubleArray(p); if(q[k]==77.) vf_reach("?"); destroyDoubleArray(q); } vf_reach("end"); }
#endif
