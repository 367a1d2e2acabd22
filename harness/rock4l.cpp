// C21, C22 (and parts of C16, C18): the linear and affine variant against the general Rock4
#include "vf.h"
#include <cstdlib>
#include <cmath>
#include "MacrosForCompilers.hpp"
#include "AllocateDestroyVector.hpp"
#include "Rock4-NG/include/Rock4.hpp"
#undef Rock4__h
#undef Rock4Coeffs__h
#undef coeffs__rock4
#define Rock4Coeffs Rock4CoeffsL
#define FPA FPA_L
#define FPB FPB_L
#define FPBE FPBE_L
#define RECF RECF_L
#define MS MS_L
#include "Rock4-L/include/Rock4L.hpp"
using namespace odes;
#ifndef NN
#define NN 1
#endif
static double dabs(double a){ return a>=0?a:-a; }
static double rho_for(int s){ return 0.353*(s-0.5)*(s-0.5)-3.; }
static bool tabulated(int s){ static const int M[50]={1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,22,24,26,28,30,32,34,36,38,41,44,47,50,53,56,59,63,67,71,76,81,86,92,98,105,112,120,129,138,148}; for(int i=0;i<50;i++) if(M[i]+4==s) return true; return false; }
static double A[NN][NN],B[NN],rad; static int calls,maxcalls;
struct Many{};
// the four forms of the linear operator, documented in Rock4L.hpp
struct FL{ int size() const{ return NN; } double rho(){ return rad; }
  void ap(double*in,double*t){ ++calls; if(calls>maxcalls) throw Many(); for(int i=0;i<NN;i++){ double s=0.; for(int j=0;j<NN;j++) s+=A[i][j]*in[j]; t[i]=s; } }
  void operator()(double*in,double*s,double a,double b,double*out){ double t[NN]; ap(in,t); for(int i=0;i<NN;i++) out[i]=a*t[i]+b*s[i]; }
  void operator()(double*in,double*s,double a,double b,double*g,double*out){ double t[NN]; ap(in,t); for(int i=0;i<NN;i++) out[i]=a*(t[i]+g[i])+b*s[i]; }
  void operator()(double*in,double*s,double a,double b,double c,double*out){ double t[NN]; ap(in,t); for(int i=0;i<NN;i++) out[i]=a*t[i]+b*in[i]+c*s[i]; }
  void operator()(double*in,double*s,double a,double b,double c,double*g,double*out){ double t[NN]; ap(in,t); for(int i=0;i<NN;i++) out[i]=a*(t[i]+g[i])+b*in[i]+c*s[i]; } };
struct FG{ int size() const{ return NN; } double rho(){ return rad; } int calls;
  void operator()(double*in,double*out){ ++calls; for(int i=0;i<NN;i++){ double s=B[i]; for(int j=0;j<NN;j++) s+=A[i][j]*in[j]; out[i]=s; } } };
static void general(double*y0,double h,double*r){ FG F; F.calls=0; double*y=allocDoubleArray(NN); for(int i=0;i<NN;i++) y[i]=y0[i]; { Rock4<FG> R(F); R.setTolerances(INFINITY,0.); R(y,0.,h,h); vf_assert(R.NbSteps()==1,"one step"); } for(int i=0;i<NN;i++) r[i]=y[i]; destroyDoubleArray(y); }
template<bool AF> struct Run{ FL F; Rock4L<FL,AF> R; double*y,*b; Run():R(F){ y=allocDoubleArray(NN); b=allocDoubleArray(NN); } ~Run(){ destroyDoubleArray(y); destroyDoubleArray(b); }
  void go(double t0,double te,double h); };
template<> void Run<false>::go(double t0,double te,double h){ R(y,t0,te,h); }
template<> void Run<true>::go(double t0,double te,double h){ for(int i=0;i<NN;i++) b[i]=B[i]; R(y,b,t0,te,h); for(int i=0;i<NN;i++) vf_close(b[i],B[i],0.,"the constant forcing is not modified"); }
static double num(int i,int j,int s){ int k=(i*7+j*13+s*29+i*j*5)%17; return (k-8)/4.0; }
// ---- one step against the general method, every table: z=h*lambda on the interval
template<bool AF> static void pol(){
  int st=vf_param("mdeg")+4; double h=vf_dparam("h"),L=0.353*st*st-3.,frac=vf_dparam("frac"),y0[NN],r[NN]; maxcalls=1000; rad=rho_for(st)/h;
  double z=vf_double("z",-L*frac,0.);
  for(int i=0;i<NN;i++){ y0[i]=vf_dparam(i?"y1":"y0"); B[i]=AF?vf_dparam("b"):0.; for(int j=0;j<NN;j++) A[i][j]=0.; A[i][i]=z/h; if(i) A[i][i-1]=1./h; }
  if(AF&&vf_param("eq")) B[0]=-(z/h)*y0[0];
  general(y0,h,r);
  { Run<AF> X; for(int i=0;i<NN;i++) X.y[i]=y0[i]; calls=0; X.go(0.,h,h); vf_assert(calls==st,"number of operator applications of a step"); vf_assert(X.R.NbRhsComputed()==calls&&X.R.NbSteps()==1&&X.R.NbStages()==st,"the counters equal what happened"); vf_close(X.R.Time(),h,1e-15,"time reached");
    for(int i=0;i<NN;i++) vf_close(X.y[i],r[i],vf_dparam("tol"),"the step equals the general Rock4 step");
    if(AF&&vf_param("eq")) vf_close(X.y[0],y0[0],1e-9,"an equilibrium is left unchanged");
    vf_obs("y",X.y[0]); }
  vf_reach("end");
}
HARNESS(lpol){ pol<false>(); }
HARNESS(apol){ pol<true>(); }
// ---- damping of the linear variant (C18)
HARNESS(ldamping){
  int st=vf_param("mdeg")+4; double L=0.353*st*st-3.; maxcalls=1000; rad=rho_for(st); double z=vf_double("z",-L*vf_dparam("frac"),0.); A[0][0]=z; B[0]=0.;
  { Run<false> X; X.y[0]=1.; calls=0; X.go(0.,1.,1.); vf_assert(calls==st,"number of operator applications of a step"); vf_close(X.y[0],0.,vf_dparam("tol"),"amplification at most one on the announced interval"); }
  vf_reach("end");
}
// ---- every matrix of a small size, every step
template<bool AF> static void mat(){
  int st=vf_param("mdeg")+4,mask=vf_param("mask"); maxcalls=1000; double h=vf_param("symh")?vf_double("h",0.5,2.):vf_dparam("h"),y0[NN],r[NN]; rad=vf_param("symh")?0.:rho_for(st)/h;
  for(int i=0;i<NN;i++){ y0[i]=(mask>>i)&1?vf_double("y",-1,1):0.75-i*0.5; B[i]=AF?((mask>>(i+4))&1?vf_double("b",-1,1):num(i,3,2)/2):0.; for(int j=0;j<NN;j++) A[i][j]=(mask>>(8+i*NN+j))&1?vf_double("a",-1,1):num(i,j,1)/2; }
  general(y0,h,r);
  { Run<AF> X; int rep=vf_param("again"); for(int q=0;q<=rep;q++){ for(int i=0;i<NN;i++) X.y[i]=y0[i]; calls=0; X.go(0.,h,h); vf_assert(calls==st,"number of operator applications of a step");
    for(int i=0;i<NN;i++) vf_close(X.y[i],r[i],1e-9,"the step equals the general Rock4 step"); } }
  vf_reach("end");
}
HARNESS(lmat){ mat<false>(); }
HARNESS(amat){ mat<true>(); }
// ---- the time loop: with the nilpotent matrix [0 0;1 0] the second component counts the time
#if NN==2
template<bool AF> static void steps(){
  maxcalls=1000; double t0=vf_dparam("t0"),te,h; te=t0+vf_double("len",vf_dparam("l0"),vf_dparam("l1")); h=vf_param("symh")?vf_double("h",0.5,1.5):vf_dparam("h"); rad=0.; vf_assume(te-t0>1e-3);
  A[0][0]=A[0][1]=A[1][1]=0.; A[1][0]=AF?0.:1.; B[0]=0.; B[1]=AF?1.:0.;
  { Run<AF> X; X.y[0]=1.; X.y[1]=0.; calls=0; bool bad=false; try{ X.go(t0,te,h); }catch(OdesException&){ bad=true; }
    vf_assert(!bad,"the integration does not fail spuriously");
    vf_close(X.y[1],te-t0,1e-9,"the total time advanced equals the interval"); vf_close(X.y[0],1.,1e-9,"the step equals the general Rock4 step"); vf_close(X.R.Time(),te,1e-9,"time reached");
    int n=X.R.NbSteps(); vf_assert(calls==5*n&&X.R.NbRhsComputed()==calls,"the counters equal what happened");
    vf_assert((n-1)*h<=(te-t0)*(1+1e-9)&&n*h*1.02>=te-t0,"no step is longer than requested and none is superfluous"); vf_reach("end"); }
}
HARNESS(lsteps){ steps<false>(); }
HARNESS(asteps){ steps<true>(); }
#endif
// ---- several steps compose, the last one shortened
template<bool AF> static void compose(){
  int n=vf_param("n"); double h=vf_dparam("h"),last=vf_dparam("last"),y0[NN],r[NN]; maxcalls=1000; rad=vf_dparam("rho");
  for(int i=0;i<NN;i++){ y0[i]=num(i,1,5); B[i]=AF?num(i,2,2):0.; for(int j=0;j<NN;j++) A[i][j]=num(i,j,3)/2; } A[0][0]=vf_double("a",-2,1);
  for(int i=0;i<NN;i++) r[i]=y0[i]; for(int k=0;k<n;k++) general(r,h,r); general(r,last,r);
  { Run<AF> X; int rep=vf_param("again"); for(int q=0;q<=rep;q++){ for(int i=0;i<NN;i++) X.y[i]=y0[i]; calls=0; X.go(1.,1.+n*h+last,h); for(int i=0;i<NN;i++) vf_close(X.y[i],r[i],1e-8,"several steps up to the end equal the composed general steps"); vf_assert(X.R.NbSteps()==n+1,"steps"); vf_close(X.R.Time(),1.+n*h+last,1e-15,"time reached"); vf_obs("y",X.y[0]); } }
  vf_reach("end");
}
HARNESS(lcompose){ compose<false>(); }
HARNESS(acompose){ compose<true>(); }
// ---- calling the variant that does not match the declared kind
HARNESS(kind){
  maxcalls=1000; rad=0.; for(int i=0;i<NN;i++){ B[i]=1.; for(int j=0;j<NN;j++) A[i][j]=0.5; } int k=0; double v=vf_double("v",-2,2);
  { Run<false> X; for(int i=0;i<NN;i++){ X.y[i]=v; X.b[i]=1.; } try{ X.R(X.y,X.b,0.,1.,0.5); }catch(OdesException&){ k|=1; } for(int i=0;i<NN;i++) vf_close(X.y[i],v,0.,"a refused call leaves the state alone"); }
  { Run<true> X; for(int i=0;i<NN;i++){ X.y[i]=v; X.b[i]=1.; } try{ X.R(X.y,0.,1.,0.5); }catch(OdesException&){ k|=2; } for(int i=0;i<NN;i++) vf_close(X.y[i],v,0.,"a refused call leaves the state alone"); }
  { Run<false> X; Run<true> Y; for(int i=0;i<NN;i++){ X.y[i]=1.; Y.y[i]=1.; } try{ X.go(0.,1.,0.5); Y.go(0.,1.,0.5); }catch(OdesException&){ k|=4; } }
  vf_assert(k==3,"calling the variant that does not match the declared kind throws, the other does not"); vf_reach("end");
}
// ---- selection of the number of stages (C16)
template<bool AF> static void deg(){
  int which=vf_param("which"); double lo=vf_dparam("lo"),hi=vf_dparam("hi"),c=vf_dparam("c"),h; maxcalls=152;
  if(which==0){ h=c; rad=vf_double("rho",lo/c,hi/c); } else { rad=c; h=vf_double("h",lo/c,hi/c); }
  for(int i=0;i<NN;i++){ B[i]=0.; for(int j=0;j<NN;j++) A[i][j]=0.; }
  { Run<AF> X; for(int i=0;i<NN;i++) X.y[i]=1.; calls=0; bool thr=false; try{ X.go(0.,h,h); }catch(OdesException&){ thr=true; }catch(Many&){ vf_assert(false,"the number of stages is one of the tabulated ones"); vf_stop(); }
    if(thr){ vf_assert(calls==0,"refused before the step"); vf_assert(h*rad>=(0.353*152*152-3)*(1-1e-9),"an exception only if the largest method is insufficient"); vf_reach("thrown"); }
    else{ int s=calls; vf_assert(tabulated(s),"the number of stages is one of the tabulated ones"); vf_assert(h*rad<=(0.353*s*s-3)*(1+1e-12)+1e-9,"the stability interval of the selected method covers step times spectral radius"); vf_reach("onestep"); } }
}
HARNESS(ldeg){ deg<false>(); }
HARNESS(adeg){ deg<true>(); }
// ---- bit-precise: the last step
template<bool AF> static void lastfp(){
  maxcalls=1000; rad=0.; for(int i=0;i<NN;i++){ B[i]=0.; for(int j=0;j<NN;j++) A[i][j]=0.; }
  double t0=vf_double("t0",vf_dparam("tlo"),vf_dparam("thi")),te=vf_dparam("elo")<vf_dparam("ehi")?vf_double("te",vf_dparam("elo"),vf_dparam("ehi")):vf_dparam("elo"),h=vf_dparam("h0");
  { Run<AF> X; for(int i=0;i<NN;i++) X.y[i]=1.; bool thr=false; try{ X.go(t0,te,h); }catch(OdesException&){ thr=true; } vf_assert(!thr,"the integration does not fail spuriously on its last step"); vf_assert(X.R.NbSteps()<=vf_param("maxst"),"no superfluous step"); vf_assert(X.R.Time()==te,"the integration ends exactly at the requested time"); }
  vf_reach("end");
}
HARNESS(llastfp){ lastfp<false>(); }
HARNESS(alastfp){ lastfp<true>(); }
