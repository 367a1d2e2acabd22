// C16-C20: Rock4
#ifdef LOGCK
#define LOGROCK4
#include "logck.h"
#endif
#include "vf.h"
#include <cstdlib>
#include "series.h"
#include "MacrosForCompilers.hpp"
#include "AllocateDestroyVector.hpp"
#include "Rock4.hpp"
#include <cmath>
using namespace odes;
#ifndef NN
#define NN 1
#endif
struct Scn{ virtual void f(double*in,double*out)=0; virtual double rho()=0; virtual ~Scn(){} };
static Scn*cur;
struct FN{ int size() const{ return NN; } double rho(){ return cur->rho(); } void operator()(double*in,double*out){ cur->f(in,out); } };
typedef Rock4<FN> R;
static double dabs(double a){ return a>=0?a:-a; }
static double dmin(double a,double b){ return a<b?a:b; }
static double dmax(double a,double b){ return a>b?a:b; }
static double num(int i,int j,int s){ int k=(i*7+j*13+s*29+i*j*5)%17; return (k-8)/4.0; }
// a value of rho for which a step of length one takes exactly s stages (s-1 are not enough)
static double rho_for(int s){ return 0.353*(s-0.5)*(s-0.5)-3.; }
static bool tabulated(int s){ static const int M[50]={1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,22,24,26,28,30,32,34,36,38,41,44,47,50,53,56,59,63,67,71,76,81,86,92,98,105,112,120,129,138,148}; for(int i=0;i<50;i++) if(M[i]+4==s) return true; return false; }
// ------------------------------------------------------------------ C16
// F=1: the state is the time; an infinite tolerance accepts everything
struct Deg: Scn{ double r,h,y; int calls,att,maxatt; double hs[8];
  double rho(){ return r; }
  void f(double*in,double*o){ for(int i=0;i<NN;i++) o[i]=1.; if(calls<0){ calls=0; return; }
    ++calls; double d=in[0]-y;
    if(calls>152){ vf_assert(false,"the number of stages is one of the tabulated ones"); vf_stop(); }
    if(att==0){ // first attempt: the step actually taken is only known here if it was reduced
      if(calls==152&&vf_decide(dabs(d-h)>1e-6*h)){ // (reduced)
        vf_reach("reduced"); vf_assert(d>0&&d<=h,"the step is reduced"); vf_assert(d*r<=(0.353*152*152-3)*(1+1e-9),"stability interval of the largest method covers the reduced step"); vf_stop(); } } } };
HARNESS(degree){
  Deg S; cur=&S; int which=vf_param("which"); double lo=vf_dparam("lo"),hi=vf_dparam("hi"),c=vf_dparam("c");
  // x=h*rho in [lo,hi]
  if(which==0){ S.h=c; S.r=vf_double("rho",lo/c,hi/c); } else if(which==1){ S.r=c; S.h=vf_double("h",lo/c,hi/c); } else { S.h=vf_double("h",0.01,10); S.r=vf_double("rho",0,hi); vf_assume(S.h*S.r>=lo&&S.h*S.r<=hi); }
  S.calls=-1; S.att=0; S.y=0.; double*y=allocDoubleArray(NN); for(int i=0;i<NN;i++) y[i]=0.;
  { FN F; R rk(F); rk.setTolerances(INFINITY,0.); rk(y,0.,S.h,S.h);
    if(rk.NbSteps()==1){ int s=S.calls; vf_assert(tabulated(s),"the number of stages is one of the tabulated ones");
      vf_assert(S.h*S.r<=(0.353*s*s-3)*(1+1e-12)+1e-9,"the stability interval of the selected method covers step times spectral radius");
      vf_assert(rk.NbRhsComputed()==S.calls+1,"right-hand side calls are counted"); vf_assert(rk.NbStages()==s||rk.NbStages()==s-4,"the number of stages is reported"); vf_reach("onestep"); }
    else vf_reach("more"); }
  destroyDoubleArray(y); vf_reach("end");
}
// several steps (the step grows by the documented factors 5, 2, 2..): the number of stages follows the step
struct DegM: Scn{ double r,h,y,rest; int calls,steps,maxs; bool first;
  double rho(){ return r; }
  void f(double*in,double*o){ for(int i=0;i<NN;i++) o[i]=1.; if(first){ first=false; return; }
    ++calls; double d=in[0]-y; if(calls>152){ vf_assert(false,"the number of stages is one of the tabulated ones"); vf_stop(); }
    if(dabs(d-h)<1e-9*h&&tabulated(calls)){ ++steps; vf_assert(h*r<=(0.353*calls*calls-3)*(1+1e-12)+1e-9,"the stability interval of the selected method covers step times spectral radius"); y+=h; calls=0; h=rest>0?rest:h*(steps==1?5.:2.); vf_reach("step"); if(steps>=maxs){ vf_reach("end"); vf_stop(); } } } };
HARNESS(degmulti){
  DegM S; cur=&S; S.rest=-1; S.h=vf_dparam("h"); S.r=vf_double("rho",vf_dparam("lo"),vf_dparam("hi")); S.y=0.25; S.calls=S.steps=0; S.first=true; S.maxs=vf_param("steps");
  double*y=allocDoubleArray(NN); for(int i=0;i<NN;i++) y[i]=0.25;
  { FN F; R rk(F); rk.setTolerances(INFINITY,0.); rk(y,0.,1e4,S.h); }
  destroyDoubleArray(y);
}
// two steps of the same length: both use the same, tabulated, number of stages
struct DegT: Scn{ double r; int total; double rho(){ return r; } void f(double*in,double*o){ for(int i=0;i<NN;i++) o[i]=1.; ++total; if(total>400) vf_stop(); } };
HARNESS(degtwo){
  DegT S; cur=&S; S.r=vf_double("rho",vf_dparam("lo"),vf_dparam("hi")); S.total=-1; { double q=(3.+0.125*S.r)/0.353; int k=(int)std::sqrt(q); vf_assume(q>k*(double)k+1e-6&&q<(k+1.)*(k+1.)-1e-6); } // (a margin to the switching points)
  double*y=allocDoubleArray(NN); for(int i=0;i<NN;i++) y[i]=0.25;
  { FN F; R rk(F); rk.setTolerances(INFINITY,0.); rk(y,0.,0.25,0.125); vf_assert(rk.NbSteps()==2,"two steps are made"); int s=S.total/2; vf_assert(S.total==2*s&&tabulated(s),"the number of stages is one of the tabulated ones, in each of two equal steps");
    vf_assert(0.125*S.r<=(0.353*s*s-3)*(1+1e-12)+1e-9,"the stability interval of the selected method covers step times spectral radius"); vf_reach("end"); }
  destroyDoubleArray(y);
}
// ------------------------------------------------------------------ coefficients of the error estimate, measured through the step-size response
struct Probe: Scn{ int mdeg,calls,j1,j2; double v1,v2,r; R*rk;
  double rho(){ return r; }
  void f(double*in,double*o){ for(int i=0;i<NN;i++) o[i]=0.; ++calls; int k=calls-mdeg; // k=1..5: finishing calls of the first attempt
    if(k==j1) o[0]=v1; if(k==j2) o[0]=v2; if(rk->NbAccepted()+rk->NbRejected()>=2&&rk->NbSteps()>=2&&calls>mdeg+6) throw 1; } };
// |sum d_j v_j| for a step of length one
static double response(int mdeg,int j1,double v1,int j2,double v2){
  Scn*save=cur; Probe P; cur=&P; P.mdeg=mdeg; P.calls=0; P.j1=j1; P.v1=v1; P.j2=j2; P.v2=v2; P.r=rho_for(mdeg+4); double*y=allocDoubleArray(NN); for(int i=0;i<NN;i++) y[i]=0.;
  double res; { FN F; R rk(F); P.rk=&rk; double tol=mdeg<=10?0.02:mdeg<=50?1e-3:1e-4; rk.setTolerances(tol,0.); try{ rk(y,0.,1e6,1.); }catch(int){}
    double q=rk.LastAcceptedTimeStep(); if(rk.NbRejected()) q/=0.8; res=0.8/q; res=res*res*res*res*tol*std::sqrt((double)NN); }
  destroyDoubleArray(y); cur=save; return res; }
static void measure(int mdeg,double*d){ // d[1..5]; the sign of d[5] is chosen positive
  for(int j=1;j<=5;j++) d[j]=response(mdeg,j,1.,0,0.);
  for(int j=1;j<=4;j++){ double p=response(mdeg,j,1.,5,d[j]/d[5]); if(p<d[j]) d[j]=-d[j]; } }
// ------------------------------------------------------------------ C17
#if NN==4
struct Ord: Scn{ double e,r,c[8]; int calls,mdeg; double k[6][4];
  double rho(){ return r; }
  void f(double*y,double*o){ ++calls;
    o[0]=e*(c[1]); o[1]=e*(c[2]*y[0]+c[3]*y[0]*y[0]+c[4]*y[0]*y[0]*y[0]); o[2]=e*(c[5]*y[1]+c[6]*y[0]*y[1]); o[3]=e*(c[7]*y[2]);
    int q=calls-mdeg; if(q>=1&&q<=5) for(int i=0;i<4;i++) k[q][i]=o[i]; } };
HARNESS(order){
  Ord S; cur=&S; double y0[4]; int grp=vf_param("grp"); S.mdeg=vf_param("mdeg"); S.r=rho_for(S.mdeg+4); S.c[0]=0;
  double d[6]; measure(S.mdeg,d);
  for(int i=1;i<=7;i++){ bool sym=(grp>>i)&1; S.c[i]=sym?vf_double("c",-2,2):num(i,grp%7,3)/2+0.4; }
  for(int i=0;i<4;i++) y0[i]=(grp>>16)&(1<<i)?vf_double("y",-1,1):num(i,1,1)/2;
  series_close(8,4,1e-6,"the step (and its embedded companion, one order less) agrees with the Taylor expansion of the exact solution",[&](double eps,double*r){
    S.e=eps; S.calls=0; double*y=allocDoubleArray(4); for(int i=0;i<4;i++) y[i]=y0[i];
    { FN F; R rk(F); rk.setTolerances(INFINITY,0.); rk(y,0.,1.,1.); vf_assert(S.calls==S.mdeg+5,"number of right-hand side calls of a step"); }
    typedef Pol<4> Q;
    Q p1=Q(S.c[1])*eps; p1=p1.integ(y0[0]);
    Q p2=(p1*S.c[2]+p1*p1*S.c[3]+p1*p1*p1*S.c[4])*eps; p2=p2.integ(y0[1]);
    Q p3=(p2*S.c[5]+p1*p2*S.c[6])*eps; p3=p3.integ(y0[2]);
    Q p4=p3*(eps*S.c[7]); p4=p4.integ(y0[3]);
    Q*p[4]={&p1,&p2,&p3,&p4};
    for(int i=0;i<4;i++){ r[i]=y[i]-p[i]->at(1.); double s=0.; for(int j=1;j<=5;j++) s+=d[j]*S.k[j][i]; r[4+i]=eps*(r[i]+s); }
    destroyDoubleArray(y); });
  vf_reach("end");
}
#endif
// ------------------------------------------------------------------ C18
#if NN==1
struct Lin: Scn{ double z,r; int calls,mdeg; bool rec; double rho(){ return r; }
  void f(double*y,double*o){ ++calls; if(rec&&calls==mdeg+1) vf_close(y[0],0.,1.+1e-9,"amplification of the recurrence at most one on the announced interval"); o[0]=z*y[0]; } };
HARNESS(damping){
  Lin S; cur=&S; S.calls=0; S.rec=vf_param("rec"); S.mdeg=vf_param("mdeg"); int s=S.mdeg+4; double L=0.353*s*s-3.; S.r=rho_for(s); S.z=vf_double("z",-L*vf_dparam("frac"),0); double tol=vf_dparam("tol");
  double*y=allocDoubleArray(1); y[0]=1.;
  { FN F; R rk(F); rk.setTolerances(INFINITY,0.); rk(y,0.,1.,1.); vf_assert(S.calls==S.mdeg+5,"number of right-hand side calls of a step"); }
  vf_close(y[0],0.,tol,"amplification at most one on the announced interval"); vf_obs("y",y[0]);
  destroyDoubleArray(y); vf_reach("end");
}
#endif
// ------------------------------------------------------------------ C19: the time loop in lock-step (rho=0: five stages; the finishing derivatives are zero)
#if NN<=2
struct Ctl: Scn{
  double y[NN],fn[NN],v[NN],yn[NN],x,tend,h,hprev,g[24],mu1,d5,atol,rtol,sg,err,h0,hl; int att,acc,rej,calls,maxatt,k,rhos; bool rejected,afterrej,init,many; R*rk;
  double rho(){ ++rhos; return 0.; }
  void f(double*in,double*o){ ++calls; for(int i=0;i<NN;i++) o[i]=0.;
    if(init){ init=false; for(int i=0;i<NN;i++) o[i]=fn[i]=1.+i; return; }
    if(k==0){ // first finishing call: y+h*mu1*fn
      if(att>=maxatt){ vf_reach("bound"); vf_stop(); }
#ifdef LOGCK
      lk.read(rk->Log()); lg.failures(1.);
#endif
      double hn=(in[0]-y[0])/(mu1*fn[0]);
      vf_assert(hn>0,"steps go forward"); vf_assert(x+hn<=tend+1e-9,"no step overshoots the end");
      double rem=tend-x;
      if(att==0) vf_close(hn,dabs(rem-h0)<1e-12||h0*1.01>rem?rem:h0,1e-9,"the first step is the proposed one, or the remaining interval");
      else if(rejected){ vf_assert(hn<h*(1-1e-9),"a rejected attempt is retried with a smaller step"); if(!many) vf_assert(hn>=h*0.08*(1-1e-9),"the step shrinks at most by the documented factor"); }
      else{ double top=afterrej?1.:acc==1&&rej==0?5.:2.; 
        vf_assert(hn<=h*top*1.1111*(1+1e-9),"the step grows at most by the documented factor"); vf_assert(hn>=h*0.1*(1-1e-9)||hn>=rem*(1-1e-9),"the step shrinks at most by the documented factor"); }
      h=hn; for(int i=0;i<NN;i++){ double e=y[i]+h*mu1*fn[i]; vf_close(in[i],e,1e-7,"an attempt starts from the accepted state and derivative"); yn[i]=e; } k=1; return; }
    for(int i=0;i<NN;i++) vf_close(in[i],yn[i],1e-7,"the finishing stages start from the result of the recurrence");
    if(++k<5) return;
    k=0; double q=0.8/g[att]; q=q*q*q*q; err=q; double s2=NN==1?1.:0.; 
    for(int i=0;i<NN;i++){ double w=NN==1?q:(i?-1.75*q:0.25*q)*0.8; v[i]=w*sg*(atol+rtol*dabs(yn[i]))/(h*d5); o[i]=v[i]; }
    vf_assume(err>1+1e-7||err<1-1e-7); ++att;
    if(err<1.){ ++acc; x+=h; hl=h; for(int i=0;i<NN;i++){ y[i]=yn[i]; fn[i]=v[i]; } afterrej=rejected; rejected=false; vf_reach("accepted"); }
    else{ rejected=true; ++rej; vf_reach("rejected"); }
#ifdef LOGCK
    lg.ev(rejected?LK_REJ:LK_SUC,x,att);
#endif
  } };
HARNESS(ctl){
  Ctl S; cur=&S; double d[6]; measure(1,d); S.d5=d[5];
  { struct M1: Scn{ int c; double mu; double rho(){return 0.;} void f(double*in,double*o){ for(int i=0;i<NN;i++) o[i]=1.; if(++c==2){ mu=in[0]; throw 1; } } } m; m.c=0; cur=&m; double*y=allocDoubleArray(NN); for(int i=0;i<NN;i++) y[i]=0.; { FN F; R rk(F); try{ rk(y,0.,1.,1.); }catch(int){} } destroyDoubleArray(y); S.mu1=m.mu; cur=&S; }
  S.atol=vf_dparam("atol"); S.rtol=vf_dparam("rtol"); S.maxatt=vf_param("att"); S.many=vf_param("many"); S.sg=vf_param("neg")?-1.:1.;
  for(int i=0;i<S.maxatt;i++) S.g[i]=S.many?vf_double("g",0.6,0.79):vf_double("g",0.15,9);
  double t0=vf_dparam("x0"),te=vf_dparam("xe"); if(vf_param("symx")){ t0=vf_double("t0",-10,10); te=t0+vf_double("len",0.05,20); }
  S.h0=vf_param("symh")?vf_double("h",0.05,3):vf_dparam("h0"); S.x=t0; S.tend=te; { double e=S.h0*1.01-(te-t0); vf_assume(e>1e-7||e<-1e-7); }
  S.att=S.acc=S.rej=S.calls=S.k=S.rhos=0; S.rejected=S.afterrej=false; S.init=true; S.h=0; S.hl=0;
  double*y=allocDoubleArray(NN); for(int i=0;i<NN;i++) y[i]=S.y[i]=2.+i; 
  { FN F; R rk(F); S.rk=&rk; rk.setTolerances(S.atol,S.rtol); int rep=vf_param("again");
    for(int q=0;q<=rep;q++){ if(q){ S.x=t0; S.att=S.acc=S.rej=S.calls=S.k=0; S.rejected=S.afterrej=false; S.init=true; for(int i=0;i<NN;i++) y[i]=S.y[i]=2.+i; vf_reach("again"); }
#ifdef LOGCK
    lg.start(t0);
#endif
    try{ rk(y,t0,te,S.h0); }catch(OdesException&){ vf_assert(false,"the integration does not fail spuriously"); vf_stop(); }
#ifdef LOGCK
    lk.read(rk.Log()); lg.failures(1.); lk.filters(rk.Log(),lg.n); vf_reach("logged");
#endif
    vf_close(S.x,te,1e-9,"the integration ends exactly at the requested time");
    for(int i=0;i<NN;i++) vf_close(y[i],S.y[i],1e-7,"the caller's array holds the accepted solution");
    vf_assert(rk.NbSteps()==S.att&&rk.NbAccepted()==S.acc&&rk.NbRejected()==S.rej&&rk.NbRhsComputed()==S.calls,"the counters equal what happened");
    vf_close(rk.LastAcceptedTimeStep(),S.hl,1e-7,"the last accepted step is reported"); } }
  vf_obs("y",y[0]); destroyDoubleArray(y); vf_reach("end");
}
#endif
// ------------------------------------------------------------------ C20: every loop of a step, race obligations, and the same integration with one and with several threads
struct Par: Scn{ double r,a[NN],v[NN]; int calls,mdeg,lin; double rho(){ return r; }
  void f(double*in,double*o){ ++calls; if(!lin&&calls>mdeg&&calls<=mdeg+5){ for(int i=0;i<NN;i++) o[i]=v[i]*(calls-mdeg); return; }
    for(int i=0;i<NN;i++) o[i]=(i?in[i-1]*0.5:0.)-a[i]*in[i]*0.5+0.25*(i%3); } };
HARNESS(par){
  Par S; cur=&S; int st=vf_param("stages"); S.mdeg=st-4; S.r=rho_for(st); S.lin=vf_param("lin"); double y0[NN],r[2][NN],hl[2]; int nt=vf_param("threads"),ns[2],na[2];
  for(int i=0;i<NN;i++){ y0[i]=S.lin&&i<2?vf_double("y",0.5,1.5):1.+i*0.125; S.a[i]=S.lin==2&&i==1?vf_double("a",0.5,1):0.5+i*0.25; S.v[i]=0; }
  if(!S.lin){ double v=vf_double("v",5e-4,2e-2); for(int i=0;i<NN;i++) S.v[i]=v*(i%2?-1:1)*(1+i*0.5); }
  for(int k=0;k<2;k++){ vf_threads(k?nt:1); S.calls=0; double*y=allocDoubleArray(NN); for(int i=0;i<NN;i++) y[i]=y0[i];
    { FN F; R rk(F); if(S.lin) rk.setTolerances(INFINITY,0.); else rk.setTolerances(vf_dparam("tol"),0.); rk(y,0.,vf_dparam("len"),1.); hl[k]=rk.LastAcceptedTimeStep(); ns[k]=rk.NbSteps(); na[k]=rk.NbAccepted(); }
    for(int i=0;i<NN;i++) r[k][i]=y[i]; destroyDoubleArray(y); }
  vf_threads(1);
  vf_assert(ns[0]==ns[1]&&na[0]==na[1],"the threaded integration takes the steps of the serial one");
  for(int i=0;i<NN;i++) vf_close(r[0][i],r[1][i],1e-9,"the threaded result equals the serial one");
  vf_close(hl[0],hl[1],1e-9,"the threaded integration takes the steps of the serial one");
  vf_obs("y",r[0][0]); vf_reach("end");
}
// C19, bit-precise arithmetic: the last step never ends short of the end
struct Zero: Scn{ double rho(){ return 0.; } void f(double*in,double*o){ for(int i=0;i<NN;i++) o[i]=0.; } };
HARNESS(lastfp){
  Zero S; cur=&S; double t0=vf_double("t0",vf_dparam("tlo"),vf_dparam("thi")),te=vf_double("te",vf_dparam("elo"),vf_dparam("ehi")),h=vf_param("symh")?vf_double("h",0.1,4):vf_dparam("h0"); double*y=allocDoubleArray(NN); for(int i=0;i<NN;i++) y[i]=1.;
  { FN F; R rk(F); bool thrown=false; try{ rk(y,t0,te,h); }catch(OdesException&){ thrown=true; } vf_assert(!thrown,"the integration does not fail spuriously on its last step"); vf_assert(rk.NbSteps()<=vf_param("maxst"),"no superfluous step"); vf_assert(y[0]==1.,"solution"); }
  destroyDoubleArray(y); vf_reach("end");
}
