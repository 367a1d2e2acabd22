// C06 (numerical Jacobian), C07 (order, damping), C08-C11, C15: Rodas
#ifdef LOGCK
#define LOGRODAS
#include "logck.h"
#endif
#include "vf.h"
#include "series.h"
#include "Rodascc.hpp"
#include "MatrixType.hpp"
#include <cmath>
#include <vector>
using namespace odes;
#ifndef NN
#define NN 1
#endif
#ifndef KL
#define KL (NN-1)
#endif
#ifndef KU
#define KU (NN-1)
#endif
#ifndef METH
#define METH 1
#endif
#ifndef AUT
#define AUT 1
#endif
#ifndef DFT
#define DFT 0
#endif
#ifndef HES
#define HES false
#endif
#ifndef NUMJ
#define NUMJ 0
#endif
typedef Matrixtype<NN,KL,KU>::Matrix JM;
// the problem: everything is forwarded to the current scenario
struct Scn{ virtual void f(double t,double*in,double*out)=0; virtual void jac(double t,const fortranVector&y,JM&J)=0; virtual void dft(double t,const fortranVector&y,fortranVector&d){} virtual ~Scn(){} };
static Scn*cur;
struct P{
  static const int n=NN,nsub=KL,nsup=KU; static const bool Hessenberg=HES,ComputeJacobianNumerically=NUMJ,autonomous=AUT,use_DF_t=DFT; static const int method=METH;
  void operator()(double t,double*in,double*out){ cur->f(t,in,out); }
  void Jacobian(double t,const fortranVector&y,const fortranVector&Fy,JM&J){ cur->jac(t,y,J); }
  void DF_t(double t,const fortranVector&y,fortranVector&d){ cur->dft(t,y,d); }
};
typedef Rodascc<P> R;
static double num(int i,int j,int s){ int k=(i*7+j*13+s*29+i*j*5)%17; return (k-8)/4.0; }
// ------------------------------------------------------------------ C07: order four
#if NN==4
struct Ord: Scn{ double e,c[16]; int calls; double yhat[4];
  void f(double t,double*y,double*o){ double X=e*t; double b=AUT?0.:1.;
    ++calls; if(calls==6+(!AUT&&!DFT)) for(int i=0;i<4;i++) yhat[i]=y[i];
    o[0]=e*(c[1]); o[1]=e*(c[2]*y[0]+c[3]*y[0]*y[0]+c[4]*y[0]*y[0]*y[0]); o[2]=e*(c[5]*y[1]+c[6]*y[0]*y[1]); o[3]=e*(c[7]*y[2]);
    if(!AUT){ o[0]=o[0]+e*(c[8]*X); o[1]=o[1]+e*(c[9]*X+c[10]*X*X+c[11]*X*X*X+c[13]*X*y[0]); o[2]=o[2]+e*(c[12]*X*y[1]); } }
  void jac(double t,const fortranVector&y,JM&J){ double X=e*t; for(int i=1;i<=4;i++)for(int j=1;j<=4;j++) J(i,j)=0.;
    J(2,1)=e*(c[2]+2.*c[3]*y(1)+3.*c[4]*y(1)*y(1)); J(3,2)=e*(c[5]+c[6]*y(1)); J(3,1)=e*(c[6]*y(2)); J(4,3)=e*c[7];
    if(!AUT){ J(2,1)=J(2,1)+e*c[13]*X; J(3,2)=J(3,2)+e*c[12]*X; } }
  void dft(double t,const fortranVector&y,fortranVector&d){ double X=e*t; d(1)=e*e*c[8]; d(2)=e*e*(c[9]+2.*c[10]*X+3.*c[11]*X*X+c[13]*y(1)); d(3)=e*e*c[12]*y(2); d(4)=0.; }
};
HARNESS(order){
  Ord S; cur=&S; double y0[4],x0=0.; int grp=vf_param("grp"); S.c[0]=0;
  // the coefficients of one group are symbolic, the others concrete
  for(int i=1;i<=13;i++){ bool sym=(grp>>i)&1; S.c[i]=sym?vf_double("c",-2,2):num(i,grp%7,3)/2+0.4; }
  for(int i=0;i<4;i++) y0[i]=(grp>>16)&(1<<i)?vf_double("y",-1,1):num(i,1,1)/2;
  if(!AUT) x0=(grp>>20)&1?vf_double("x0",-1,1):0.25;
  double at=INFINITY,rt=0;
  series_close(8,4,1e-6,"the step (and its embedded companion, one order less) agrees with the Taylor expansion of the exact solution",[&](double eps,double*r){
    S.e=eps; S.calls=0;
    R rod(true,&at,&rt); rod.performOnlyOneStep(true);
    double y[4]; for(int i=0;i<4;i++) y[i]=y0[i]; double x=x0;
    rod(1.,x,x0+100.,y);
    vf_assert(S.calls==6+(!AUT&&!DFT),"six evaluations, and one for the time derivative when it is computed numerically"); 
    typedef Pol<4> Q; Q X(eps*x0); X.a[1]=eps; double b=AUT?0.:1.;
    Q p1=(Q(S.c[1])+X*(b*S.c[8]))*eps; p1=p1.integ(y0[0]);
    Q p2=(p1*S.c[2]+p1*p1*S.c[3]+p1*p1*p1*S.c[4]+(X*S.c[9]+X*X*S.c[10]+X*X*X*S.c[11]+X*p1*S.c[13])*b)*eps; p2=p2.integ(y0[1]);
    Q p3=(p2*S.c[5]+p1*p2*S.c[6]+X*p2*(b*S.c[12]))*eps; p3=p3.integ(y0[2]);
    Q p4=p3*(eps*S.c[7]); p4=p4.integ(y0[3]);
    Q*p[4]={&p1,&p2,&p3,&p4};
    for(int i=0;i<4;i++){ r[i]=y[i]-p[i]->at(1.); 
      // the comparison solution: times eps, so that its order-three conditions show up to eps^4
      r[4+i]=eps*(S.yhat[i]-p[i]->at(1.)); }
  });
  vf_reach("end");
}
#endif
// ------------------------------------------------------------------ C07: linear test equation
#if NN==1
struct Lin: Scn{ double l; void f(double t,double*y,double*o){ o[0]=l*y[0]; } void jac(double t,const fortranVector&y,JM&J){ J(1,1)=l; } };
HARNESS(damping){
  Lin S; cur=&S; S.l=vf_double("z",vf_dparam("lo"),vf_dparam("hi")); double at=INFINITY,rt=0,y=1.,x=0.;
  R rod(true,&at,&rt); rod.performOnlyOneStep(true); rod(1.,x,100.,&y);
  vf_assert(y<=1.+1e-9&&y>=-1.-1e-9,"amplification at most one on the negative real axis");
  if(vf_param("stiff")) vf_assert(y*S.l<=400.&&y*S.l>=-400.,"damped to zero in the stiff limit");
  vf_obs("y",y); vf_reach("end");
}
#endif
// ------------------------------------------------------------------ C06: numerical Jacobian of an affine right-hand side
static int INB(int i,int j){ return j>=i-KL&&j<=i+KU; }
struct Aff: Scn{ double a[NN][NN],b[NN],y0[NN]; int calls; bool exact;
  void f(double t,double*y,double*o){ ++calls;
    if(calls>=2&&calls<=NN+1&&exact){ int j=calls-2; for(int k=0;k<NN;k++) if(k!=j) vf_assert(y[k]==y0[k],"only the differentiated unknown is perturbed"); else vf_assert(y[k]!=y0[k],"the differentiated unknown is perturbed"); }
    if(calls==1&&exact) for(int k=0;k<NN;k++) vf_assert(y[k]==y0[k],"the right-hand side is evaluated at the initial state");
    for(int i=0;i<NN;i++){ double s=b[i]; for(int j=0;j<NN;j++) if(INB(i,j)) s+=a[i][j]*y[j]; o[i]=s; } }
  void jac(double t,const fortranVector&y,JM&J){ vf_assert(false,"analytical Jacobian is not used"); } };
HARNESS(numjac){
  Aff S; cur=&S; S.calls=0; int mode=vf_param("mode"); S.exact=mode==1||mode==3;
  for(int i=0;i<NN;i++){ S.b[i]=mode?0.5+i:vf_double("b",-3,3); for(int j=0;j<NN;j++) S.a[i][j]=INB(i,j)?(mode?num(i,j,2)/8:vf_double("a",-3,3)/16):0.;
    S.y0[i]=mode!=1?vf_double("y",vf_dparam("lo"),vf_dparam("hi")):vf_dparam("lo")*(1+i)*(i%2?-1.3:1.1); }
  double at=INFINITY,rt=0,y[NN]; for(int i=0;i<NN;i++) y[i]=S.y0[i]; double x=0;
  R rod(true,&at,&rt); rod.performOnlyOneStep(true); rod(0.125,x,100.,y);
  for(int i=0;i<NN;i++)for(int j=0;j<NN;j++) if(INB(i,j)){ vf_close(rod.Jacobian()(i+1,j+1),S.a[i][j],2e-3,"numerical Jacobian of an affine right-hand side is its matrix"); }
  vf_assert(rod.getNJac()==1,"one Jacobian"); vf_obs("j11",rod.Jacobian()(1,1)*1e-3); vf_reach("end");
}
// ------------------------------------------------------------------ the step controller
// J=0; the stages give zero except the last one, which sets the error estimate; the
// scenario runs in lock-step with its own account of what has to happen.
struct Tol: Scn{ double y0[NN],inc[NN],at[NN],rt[NN],h; int att,k,ph; R*rod; bool exp_acc;
  void f(double t,double*in,double*o){ for(int i=0;i<NN;i++) o[i]=0.; ++ph; if(ph<6) return; ph=1; if(att){ vf_assert(!exp_acc,"a step whose weighted error is at most one is accepted"); vf_reach("rejected"); vf_stop(); }
    ++att; for(int i=0;i<NN;i++) o[i]=inc[i]*4./h; }
  void jac(double t,const fortranVector&yy,JM&J){ for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++) if(INB(i,j)) J(i,j)=0.; } };
static double dab(double a){ return a>=0?a:-a; }
HARNESS(tol){ // one attempt; the weighted error of one component decides
  Tol S; cur=&S; bool scalar=vf_param("scalar"); S.k=vf_param("k"); S.att=0; S.ph=0; S.h=0.25; bool set=vf_param("set");
  double at[NN],rt[NN],dum[NN+1]; for(int i=0;i<NN;i++){ bool sy=i==S.k; at[i]=sy?vf_double("atol",1e-3,1):0.01+0.37*i; rt[i]=sy?vf_double("rtol",0,1):0.02+0.11*i; S.y0[i]=sy?vf_double("y",-2,2):1.5-i; S.inc[i]=0.; dum[i]=1e9; } dum[NN]=1e9;
  // arrays of exactly the documented length
  double*pa=new double[scalar?1:NN],*pr=new double[scalar?1:NN]; for(int i=0;i<(scalar?1:NN);i++){ pa[i]=at[i]; pr[i]=rt[i]; }
  for(int i=0;i<NN;i++) S.inc[i]=i==S.k?vf_double("inc",-3,3):0.;
  { R rod(set?true:scalar,set?dum:pa,set?dum:pr); if(set) rod.setTestPolicy(scalar,pa,pr); S.rod=&rod; rod.performOnlyOneStep(true);
    double a=scalar?at[0]:at[S.k],r=scalar?rt[0]:rt[S.k],m=dab(S.y0[S.k]),mn=dab(S.y0[S.k]+S.inc[S.k]); if(mn>m) m=mn;
    double q=a+r*m; double g=NN*q*q-S.inc[S.k]*S.inc[S.k]; vf_assume(g>1e-7||g<-1e-7); S.exp_acc=vf_decide(g>0);
    double y[NN],x=0; for(int i=0;i<NN;i++) y[i]=S.y0[i];
    rod(S.h,x,100.,y);
    vf_assert(S.exp_acc,"a step whose weighted error exceeds one is not accepted"); vf_reach("accepted");
  }
  delete[] pa; delete[] pr; 
}
// C11: every attempt fails; the number of attempts stays bounded
struct Bad: Scn{ int calls,limit; double v[8]; int kind;
  void f(double t,double*in,double*o){ ++calls; if(calls>limit){ vf_assert(false,"the number of attempts is bounded by the configured maximum"); vf_stop(); }
    for(int i=0;i<NN;i++) o[i]=kind==0?((calls%5)==1?1e30:0.):kind==1?NAN:kind==2?v[calls%8]:kind==3?INFINITY:(calls%2?1e200:-1e200); }
  void jac(double t,const fortranVector&yy,JM&J){ for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++) if(INB(i,j)) J(i,j)=0.; } };
HARNESS(term){
  Bad S; cur=&S; S.calls=0; S.kind=vf_param("kind"); int nmax=vf_param("nmax"); S.limit=6*((nmax>1000000?vf_param("tiny"):nmax)+2)+6;
  for(int i=0;i<8;i++) S.v[i]=S.kind==2?vf_double("f",i%2?2:-1e3,i%2?1e3:-2):0.;
  double at=1e-6,rt=0; R rod(true,&at,&rt); rod.setNmax(nmax);
  double y[NN]; for(int i=0;i<NN;i++) y[i]=0.5; double x0=vf_dparam("x0"),x=x0,xe=vf_dparam("xe"); 
  bool thrown=false; try{ rod(vf_dparam("h0"),x,xe,y); }catch(OdesException&e){ thrown=true; vf_reach("thrown"); }
  if(!thrown) vf_close(x,xe,1e-9,"a normal return means that the end was reached");
  vf_reach("end");
}
#if NN<=2
static double dabs(double a){ return a>=0?a:-a; }
static double dmin(double a,double b){ return a<b?a:b; }
static double dmax(double a,double b){ return a>b?a:b; }
struct Ctl: Scn{
  int go; double y[NN],x,h,xend,dir,g[16],sg,atol[NN],rtol[NN],safe,hacc,erracc,f1; int att,acc,rej,firstrej,steps,ph,maxatt,maxn; bool gus,last,rejected,over,one,done; int throwat; double err,hnew; R*rod;
  void start(double x0,double h0,double xe){ x=x0; xend=xe; dir=xe>=x0?1.:-1.; h=dabs(h0)*dir; if(dabs(h)>dabs(xe-x0)) h=xe-x0; att=acc=rej=firstrej=steps=0; ph=0; rejected=false; done=false; newstep();
#ifdef LOGCK
    lg.start(x0);
#endif
  }
  void newstep(){ // begins with a step from (x,y); the proposal is h
    if(acc) { if(dabs(h)>f1) h=dir*f1; }
    else f1=dabs(xend-x);
    { double e=(x+h*1.0001-xend)*dir; vf_assume(e>1e-7||e<-1e-7); last=e>0.; } if(last) h=xend-x; ph=0; }
  void f(double t,double*in,double*o){
    for(int i=0;i<NN;i++) o[i]=0.;
    if(throwat&&att==throwat) throw 1;
    if(ph==0){ // derivative at the start of the step
      if(done){ vf_assert(false,"no step is started once the end is reached"); vf_stop(); }
      vf_close(t,x,1e-9,"a step starts from the time reached"); for(int i=0;i<NN;i++) vf_close(in[i],y[i],1e-7,"a step starts from the accepted state"); ph=1; return; }
    ++ph; if(ph<6) return;
    // last stage of an attempt: t is the end of the step
    vf_close(t,x+h,1e-7,"the attempted step size is the one the controller prescribes");
    vf_assert((t-xend)*dir<=1e-9,"no step overshoots the end");
    for(int i=0;i<NN;i++) vf_close(in[i],y[i],1e-7,"the embedded solution starts from the unchanged state");
    if(maxn&&att>maxn+1){ vf_assert(false,"the number of attempts is bounded by the configured maximum"); vf_stop(); }
    if(att>=maxatt){ vf_reach("bound"); vf_stop(); }
    counters(1);
    // error of component i: AK6=h/4*g ; err^2 = mean (AK6/q)^2 ; chosen so that err = (safe/g)^4 and the uncorrected
    // proposal is h*g
    double w[NN]; 
#if NN==1
    double q=safe/g[go+att]; w[0]=q*q*q*q; err=w[0];
#else
    // both components: sqrt((1/16+49/16)/2)=5/4
    double q=safe/g[go+att]; q=q*q*q*q; w[0]=0.25*q; w[1]=-1.75*q; err=1.25*q; 
#endif
    double inc[NN]; for(int i=0;i<NN;i++){ inc[i]=w[i]*atol[i]*sg; o[i]=inc[i]*4./h; }
    vf_assume(err>1.+1e-7||err<1.-1e-7);
#ifdef LOGCK
    lk.read(rod->Log()); lg.failures(dir); lg.step_(h,x,steps,dir);
#endif
    ++att; ++steps; ph=1;
    double fac=dmax(1./6.,dmin(5.,std::sqrt(std::sqrt(err))/safe)); hnew=h/fac;
    if(err<=1.){ ++acc;
      if(gus){ if(acc>1){ double fg=(hacc/h)*std::sqrt(std::sqrt(err*err/erracc))/safe; fg=dmax(1./6.,dmin(5.,fg)); if(fg>fac){ vf_reach("predictive"); hnew=h/fg; } else hnew=h/fac; } hacc=h; erracc=dmax(0.01,err); }
      for(int i=0;i<NN;i++) y[i]+=inc[i];
      x+=h; if(dabs(hnew)>f1) hnew=dir*f1; if(rejected) hnew=dir*dmin(dabs(hnew),dabs(h)); rejected=false; done=last; h=hnew; if(!done) newstep(); vf_reach("accepted");
    }else{ rejected=true; if(acc==0) ++firstrej; ++rej; last=false; h=hnew; vf_reach("rejected");
#ifdef LOGCK
      lg.ev(LK_REJ,x,steps);
#endif
    }
  }
  void jac(double t,const fortranVector&yy,JM&J){ for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++) if(INB(i,j)) J(i,j)=0.; }
  void dft(double t,const fortranVector&yy,fortranVector&d){ for(int i=1;i<=NN;i++) d(i)=0.; }
  void settings(R&rod){ gus=vf_param("gus"); safe=0.9; int q=vf_param("safe"); if(q){ safe=q/100.; rod.setSafe(safe); } if(!gus) rod.setGustafssonTest(false); }
  void counters(int run){
    vf_assert(rod->getNstep()==steps,"number of step attempts"); vf_assert(rod->getNaccpt()==acc,"number of accepted steps");
    vf_assert(rod->getNrejct()<=rej&&rod->getNrejct()>=rej-firstrej,"number of rejected steps (those before the first accepted step may be left out)");
    vf_assert(rod->getNdec()==steps+run,"number of decompositions"); vf_assert(rod->getNJac()==acc+run,"number of Jacobians"); }
};
static void mktol(Ctl&S,bool scalar){ for(int i=0;i<NN;i++){ S.atol[i]=scalar?0.5:0.5*(i+1); S.rtol[i]=0.; } }
// kind: 0 whole integration, 1 one step mode
HARNESS(ctl){
  Ctl S; cur=&S; bool scalar=vf_param("scalar"); mktol(S,scalar);
  std::vector<double> at(scalar?1:NN),rt(scalar?1:NN); for(unsigned i=0;i<at.size();i++){ at[i]=S.atol[i]; rt[i]=0.; }
  R rod(scalar,&at[0],&rt[0]); S.settings(rod); S.rod=&rod;
  S.go=0; S.throwat=0; S.maxatt=vf_param("att"); { int tot=vf_param("thr")?vf_param("thr")+vf_param("att2"):S.maxatt; for(int i=0;i<tot;i++) S.g[i]=vf_double("g",vf_dparam("glo"),7); } S.sg=vf_param("neg")?-1.:1.;
  double x0=vf_dparam("x0"),xe=vf_dparam("xe"); if(vf_param("symx")){ double l=vf_double("len",0.05,20); double dr=xe>x0?1.:-1.; x0=vf_double("x0",-10,10); xe=x0+dr*l; }
  double h0=vf_param("symh")?vf_double("h",0.05,3):vf_dparam("h0");
  double y[NN]; for(int i=0;i<NN;i++) y[i]=S.y[i]=0.25+i;
  if(vf_param("negh")) h0=-h0;
  S.start(x0,h0,xe); bool one=vf_param("one"); rod.performOnlyOneStep(one);
  double x=x0; double hfirst=S.h; S.maxn=vf_param("nmax"); if(S.maxn) rod.setNmax(S.maxn);
  S.throwat=vf_param("thr"); bool failed=false;
  if(!S.maxn){ try{ rod(h0,x,xe,y); }catch(int){ failed=true; vf_reach("thrown"); } }
  else{ bool thrown=false; try{ rod(h0,x,xe,y); }catch(OdesException&){ thrown=true; }
    if(thrown){ vf_assert(S.att>=S.maxn,"gives up only once the configured number of attempts is used up"); vf_reach("gaveup"); vf_stop(); } }
  if(!failed){
  vf_close(x,S.x,1e-7,"the returned time is the time reached");
  for(int i=0;i<NN;i++) vf_close(y[i],S.y[i],1e-7,"the caller's state holds the solution at the returned time");
  if(one) vf_assert(S.acc==1,"one-step mode makes exactly one accepted step");
  else{ vf_assert(S.done,"a normal return means that the end was reached"); vf_close(x,xe,1e-9,"the returned time is the requested end"); vf_reach("end"); }
  S.counters(0);
#ifdef LOGCK
  lk.read(rod.Log()); lg.failures(S.dir); lk.filters(rod.Log(),lg.n); vf_reach("logged");
#endif
  if(one) vf_close(rod.getLastTimeStep(),S.hnew,1e-7,"the proposed next step follows the formula");
  vf_obs("x",x); vf_obs("y",y[0]);
  }
  // a second integration with the same object: same as a fresh one (C15)
  if(vf_param("again")){
    S.go=S.throwat; if(S.go){ S.throwat=0; S.maxatt=vf_param("att2"); }
    if(vf_param("again")==2){ x0=xe+1; xe=x0+(xe>0?-1.5:2.); h0*=1.25; } vf_reach("run2");
    S.start(x0,h0,xe); for(int i=0;i<NN;i++) y[i]=S.y[i]=0.25+i; x=x0; 
    rod(h0,x,xe,y);
    vf_close(x,S.x,1e-7,"second run: the returned time is the time reached");
    for(int i=0;i<NN;i++) vf_close(y[i],S.y[i],1e-7,"second run: the caller's state holds the solution");
#ifdef LOGCK
    lk.read(rod.Log()); lg.failures(S.dir); 
#endif
    S.counters(0); vf_reach("again");
  }
  vf_reach("end2");
}
#endif
