// C06 (numerical Jacobian), C10-C15: Radau5
#ifdef LOGCK
#define LOGRADAU5
#include "logck.h"
#endif
#include "vf.h"
#include "series.h"
#include "Radau5cc.hpp"
#include "MatrixType.hpp"
#include <cmath>
#include <vector>
using namespace odes;
#ifndef NN
#define NN 1
#endif
#ifndef KL
#define KL (NN-1)
#endif
#ifndef KU
#define KU (NN-1)
#endif
#ifndef HES
#define HES false
#endif
#ifndef NUMJ
#define NUMJ 0
#endif
typedef Matrixtype<NN,KL,KU>::Matrix JM;
struct Scn{ virtual void f(double t,double*in,double*out)=0; virtual void jac(double t,const fortranVector&y,JM&J)=0; virtual ~Scn(){} };
static Scn*cur;
struct P{
  static const int n=NN,nsub=KL,nsup=KU; static const bool Hessenberg=HES,ComputeJacobianNumerically=NUMJ;
  void operator()(double t,double*in,double*out){ cur->f(t,in,out); }
  void Jacobian(double t,const fortranVector&y,const fortranVector&Fy,JM&J){ cur->jac(t,y,J); }
};
typedef Radau5cc<P> R;
static double num(int i,int j,int s){ int k=(i*7+j*13+s*29+i*j*5)%17; return (k-8)/4.0; }
static int INB(int i,int j){ return j>=i-KL&&j<=i+KU; }
static double dabs(double a){ return a>=0?a:-a; }
static double dmin(double a,double b){ return a<b?a:b; }
static double dmax(double a,double b){ return a>b?a:b; }
static void zeroJ(JM&J){ for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++) if(INB(i,j)) J(i,j)=0.; }
// ------------------------------------------------------------------ C06
struct Aff: Scn{ double a[NN][NN],b[NN],y0[NN]; int calls; bool exact;
  void f(double t,double*y,double*o){ ++calls;
    if(calls>=2&&calls<=NN+1&&exact){ int j=calls-2; for(int k=0;k<NN;k++) if(k!=j) vf_assert(y[k]==y0[k],"only the differentiated unknown is perturbed"); else vf_assert(y[k]!=y0[k],"the differentiated unknown is perturbed"); }
    if((calls==1||calls==NN+2)&&exact) for(int k=0;k<NN;k++) vf_assert(y[k]==y0[k],"the state is what it was before the Jacobian was computed");
    for(int i=0;i<NN;i++){ double s=b[i]; for(int j=0;j<NN;j++) if(INB(i,j)) s+=a[i][j]*y[j]; o[i]=s; } }
  void jac(double t,const fortranVector&y,JM&J){ vf_assert(false,"analytical Jacobian is not used"); } };
HARNESS(numjac){
  Aff S; cur=&S; S.calls=0; int mode=vf_param("mode"); S.exact=mode==1||mode==3;
  for(int i=0;i<NN;i++){ S.b[i]=mode?0.5+i:vf_double("b",-3,3); for(int j=0;j<NN;j++) S.a[i][j]=INB(i,j)?(mode?num(i,j,2)/8:vf_double("a",-3,3)/16):0.;
    S.y0[i]=mode!=1?vf_double("y",vf_dparam("lo"),vf_dparam("hi")):vf_dparam("lo")*(1+i)*(i%2?-1.3:1.1); }
  double at=INFINITY,rt=1e-3,y[NN]; for(int i=0;i<NN;i++) y[i]=S.y0[i]; double x=0;
  R rod(true,&at,&rt); rod.performOnlyOneStep(true); rod(0.125,x,100.,y);
  for(int i=0;i<NN;i++)for(int j=0;j<NN;j++) if(INB(i,j)){ vf_close(rod.Jacobian()(i+1,j+1),S.a[i][j],2e-3,"numerical Jacobian of an affine right-hand side is its matrix"); }
  vf_assert(rod.getNJac()==1,"one Jacobian"); vf_obs("j11",rod.Jacobian()(1,1)*1e-3); vf_reach("end");
}
// ------------------------------------------------------------------ C12: one step for linear problems, y'=A y+b (exact Jacobian, control switched off)
// the step satisfies Q(hA) y1 = P(hA) y0 (+ forcing), P,Q the (2,3) Pade polynomials
struct Lin: Scn{ double a[NN][NN],b[NN]; int calls;
  void f(double t,double*y,double*o){ ++calls; for(int i=0;i<NN;i++){ double s=b[i]; for(int j=0;j<NN;j++) if(INB(i,j)) s+=a[i][j]*y[j]; o[i]=s; } }
  void jac(double t,const fortranVector&y,JM&J){ for(int i=0;i<NN;i++)for(int j=0;j<NN;j++) if(INB(i,j)) J(i+1,j+1)=a[i][j]; } };
HARNESS(lin){
  Lin S; cur=&S; S.calls=0; int mode=vf_param("mode"),seed=vf_param("seed"); double h=vf_param("symh")?vf_double("h",0.05,2):vf_dparam("h");
  double lo=vf_dparam("lo"),hi=vf_dparam("hi"); double y0[NN],y[NN];
  for(int i=0;i<NN;i++){ y[i]=y0[i]=mode&2?vf_double("y",-1,1):num(i,seed,5)/2+.3; S.b[i]=mode&4?vf_double("b",-1,1):0.;
    for(int j=0;j<NN;j++) S.a[i][j]=INB(i,j)?(mode&1?vf_double("a",lo,hi):num(i,j,seed)*hi/2):0.; }
  double at=INFINITY,rt=1e-3,x=0.5; R rod(true,&at,&rt); rod.performOnlyOneStep(true);
  rod(h,x,1e3,y);
  vf_close(x,0.5+h,1e-9,"time advances by the step");
  // residual of Q(hA)(y1) - P(hA) y0 - h*(...)b by Horner with w -> hA w
  double r[NN],s[NN];
  // q = y1 - 3/5 hA y1 + 3/20 (hA)^2 y1 - 1/60 (hA)^3 y1 ; p likewise; forcing: y=A^-1(..): with y+A^-1 b substituted: (Q-P)(z)/z applied to h b
  auto mul=[&](double*v){ double w[NN]; for(int i=0;i<NN;i++){ w[i]=0.; for(int j=0;j<NN;j++) if(INB(i,j)) w[i]+=h*S.a[i][j]*v[j]; } for(int i=0;i<NN;i++) v[i]=w[i]; };
  for(int i=0;i<NN;i++) r[i]=y[i]*(-1./60); mul(r); for(int i=0;i<NN;i++) r[i]+=0.15*y[i]; mul(r); for(int i=0;i<NN;i++) r[i]+=-0.6*y[i]; mul(r); for(int i=0;i<NN;i++) r[i]+=y[i];
  for(int i=0;i<NN;i++) s[i]=y0[i]*0.05; mul(s); for(int i=0;i<NN;i++) s[i]+=0.4*y0[i]; mul(s); for(int i=0;i<NN;i++) s[i]+=y0[i];
  // (P-Q)/z = 1 - z/10 + z^2/60
  if(mode&4){ double u[NN]; for(int i=0;i<NN;i++) u[i]=h*S.b[i]/60; mul(u); for(int i=0;i<NN;i++) u[i]-=h*S.b[i]*0.1; mul(u); for(int i=0;i<NN;i++) u[i]+=h*S.b[i]; for(int i=0;i<NN;i++) s[i]+=u[i]; }
  double sc=1.; { double m=h*dmax(dabs(hi),dabs(lo))*NN; sc=1+m*m*m; }
  for(int i=0;i<NN;i++) vf_close(r[i]/sc,s[i]/sc,1e-7,"the step is the Radau IIA step (order five rational stability function)");
  for(int i=0;i<NN;i++) vf_obs("y",y[i]);
  vf_assert(S.calls<=4+1,"an exact Jacobian makes the first Newton iteration exact");
  vf_reach("end");
}
#if NN==1
// stiff decay: |y1|<=1 on the negative axis
HARNESS(damping){
  Lin S; cur=&S; S.a[0][0]=vf_double("z",vf_dparam("lo"),vf_dparam("hi")); S.b[0]=0.; double at=INFINITY,rt=1e-3,y=1.,x=0.;
  R rod(true,&at,&rt); rod.performOnlyOneStep(true); rod(1.,x,100.,&y);
  vf_assert(y<=1.+1e-9&&y>=-1.-1e-9,"amplification at most one on the negative real axis");
  if(vf_param("stiff")) vf_assert(y*S.a[0][0]<=400.&&y*S.a[0][0]>=-400.,"damped to zero in the stiff limit");
  vf_obs("y",y); vf_reach("end");
}
#endif
// polynomial data: y' = lam*(y-p(t)) + p'(t) with deg p<=3, or y'=p'(t) with deg p<=5
struct Pf: Scn{ double lam[NN],c[NN][6],d[NN][6]; int deg; 
  double pv(int i,double t){ double s=0; for(int k=deg;k>=0;k--) s=s*t+c[i][k]; return s; }
  double dv(int i,double t){ double s=0; for(int k=deg;k>=1;k--) s=s*t+k*c[i][k]; return s; }
  void f(double t,double*y,double*o){ for(int i=0;i<NN;i++) o[i]=lam[i]*(y[i]-pv(i,t))+dv(i,t)+(i&&deg<=4&&INB(i,i-1)?0.5*(y[i-1]-pv(i-1,t)):0.); }
  void jac(double t,const fortranVector&y,JM&J){ zeroJ(J); for(int i=1;i<=NN;i++){ J(i,i)=lam[i-1]; if(i>1&&deg<=4&&INB(i-1,i-2)) J(i,i-1)=0.5; } } };
HARNESS(poly){
  Pf S; cur=&S; S.deg=vf_param("deg"); bool stiff=vf_param("lam"); double h=vf_param("symh")?vf_double("h",0.25,2):vf_dparam("h"),x0=vf_param("symx")?vf_double("x",-2,2):vf_dparam("x0"); double dir=vf_param("back")?-1.:1.;
  double y[NN]; for(int i=0;i<NN;i++){ S.lam[i]=stiff?(vf_param("slam")?vf_double("lam",-50,0):-3.*(i+1)):0.; for(int k=0;k<=S.deg;k++) S.c[i][k]=vf_double("c",-1,1); y[i]=S.pv(i,x0); }
  double at=INFINITY,rt=1e-3,x=x0; R rod(true,&at,&rt); rod.performOnlyOneStep(true);
  rod(h,x,x0+dir*1e3,y); double x1=x0+dir*h; vf_close(x,x1,1e-9,"time advances by the step");
  for(int i=0;i<NN;i++) vf_close(y[i],S.pv(i,x1),1e-6,stiff?"a polynomial solution of degree up to three is followed exactly":"polynomials of degree up to four are integrated exactly");
  vf_obs("y",y[0]); vf_reach("end");
}
// ------------------------------------------------------------------ C10: tolerances
struct Tol: Scn{ double inc[NN],h; int k,ph; bool exp_acc; double e;
  // F constant in the stages; h*F/U1*e is the error estimate.  The second estimate uses the value at the extra evaluation (zero: same estimate)
  void f(double t,double*in,double*o){ ++ph; for(int i=0;i<NN;i++) o[i]=0.;
    if(ph==1) return; 
    if(ph<=4) for(int i=0;i<NN;i++) o[i]=inc[i];
    if(ph==5){ vf_assert(!exp_acc,"a step whose weighted error is below one is not re-estimated"); }
    if(ph>5){ vf_assert(!exp_acc,"a step whose weighted error is below one is accepted"); vf_reach("rejected"); vf_stop(); } }
  void jac(double t,const fortranVector&yy,JM&J){ zeroJ(J); } };
static const double SQ6=2.449489742783178, U1c=1./((6.+std::pow(81.,1./3)-std::pow(9.,1./3))/30.);
static double eest(const double*v){ // e.v with err=|h/U1 * e.v|/scal for stage derivatives v: DD.(A v)
  double a[3][3]={{(88-7*SQ6)/360,(296-169*SQ6)/1800,(-2+3*SQ6)/225},{(296+169*SQ6)/1800,(88+7*SQ6)/360,(-2-3*SQ6)/225},{(16-SQ6)/36,(16+SQ6)/36,1./9}};
  double dd[3]={-(13.+7.*SQ6)/3.,(-13.+7.*SQ6)/3.,-1./3.},s=0; for(int i=0;i<3;i++)for(int j=0;j<3;j++) s+=dd[i]*a[i][j]*v[j]; return s; }
HARNESS(tol){
  Tol S; cur=&S; bool scalar=vf_param("scalar"); S.k=vf_param("k"); S.ph=0; S.h=0.25; bool set=vf_param("set");
  double at[NN],rt[NN],y[NN],dum[NN+1],dr[NN+1];
  for(int i=0;i<NN;i++){ bool sy=i==S.k; at[i]=sy?vf_double("atol",0.01,1):0.01+0.37*i; rt[i]=(i+1)*(i+1)*(i+1)/64./8; y[i]=sy?vf_double("y",-2,2):1.5-i; dum[i]=1e9; dr[i]=0.5; } dum[NN]=1e9; dr[NN]=.5;
  double*pa=new double[scalar?1:NN],*pr=new double[scalar?1:NN]; for(int i=0;i<(scalar?1:NN);i++){ pa[i]=at[i]; pr[i]=rt[i]; }
  double v[3]={1,1,1}; S.e=eest(v);
  for(int i=0;i<NN;i++) S.inc[i]=i==S.k?vf_double("inc",-30,30):0.;
  { R rod(set?true:scalar,set?dum:pa,set?dr:pr); if(set) rod.setTestPolicy(scalar,pa,pr); rod.performOnlyOneStep(true); rod.setFnewt(1e30);
    double a=scalar?at[0]:at[S.k],r=scalar?rt[0]:rt[S.k]; double r1=0.1*std::pow(r,2./3),a1=a*(r1/r); // internal tolerances, as documented for Radau5
    double sc=a1+r1*dabs(y[S.k]); double er=S.inc[S.k]*S.e*S.h/U1c; double g=NN*sc*sc-er*er; vf_assume(g>1e-7||g<-1e-7); S.exp_acc=vf_decide(g>0);
    double x=0; rod(S.h,x,100.,y);
    vf_assert(S.exp_acc,"a step whose weighted error exceeds one is not accepted"); vf_reach("accepted"); }
  delete[] pa; delete[] pr;
}
// ------------------------------------------------------------------ C11
struct Bad: Scn{ int calls,limit; double v[8]; int kind;
  void f(double t,double*in,double*o){ ++calls; if(calls>limit){ vf_assert(false,"the number of attempts is bounded by the configured maximum and the smallest step"); vf_stop(); }
    for(int i=0;i<NN;i++) o[i]=kind==0?((calls%5)==1?1e30:0.):kind==1?NAN:kind==2?v[calls%8]:kind==3?INFINITY:kind==4?(calls%2?1e200:-1e200):(calls%2?1e9:-1e9)*(calls+1.); }
  void jac(double t,const fortranVector&yy,JM&J){ zeroJ(J); } };
HARNESS(term){
  Bad S; cur=&S; S.calls=0; S.kind=vf_param("kind"); int nmax=vf_param("nmax"),nit=vf_param("nit"); S.limit=(3*(nit?nit:7)+2)*((nmax>1000000?vf_param("tiny"):nmax)+2)+6;
  for(int i=0;i<8;i++) S.v[i]=S.kind==2?vf_double("f",i%2?2:-1e3,i%2?1e3:-2):0.;
  double at=1e-6,rt=1e-6; R rod(true,&at,&rt); rod.setNmax(nmax); if(nit) rod.setMaxIterationsNewton(nit);
  double y[NN]; for(int i=0;i<NN;i++) y[i]=0.5; double x0=vf_dparam("x0"),x=x0,xe=vf_dparam("xe");
  bool thrown=false; try{ rod(vf_dparam("h0"),x,xe,y); }catch(OdesException&e){ thrown=true; vf_reach("thrown"); }
  if(!thrown) vf_close(x,xe,1e-9,"a normal return means that the end was reached");
  vf_reach("end");
}
// ------------------------------------------------------------------ C14, C13, C15: the step controller in lock-step (J=0, one Newton iteration)
#if NN<=2
static const double vst[3]={1.,0.5,-0.25};
struct Ctl: Scn{
  double y[NN],x,h,h1,xend,dir,g[16],sg,atol[NN],rtol[NN],safe,hacc,erracc,hm,facr,facl; int rho[16]; int att,acc,rej,ndec,njac,nf,ph,maxatt,go,throwat,maxn; bool gus,last,rejected,one,done,caljac; double err,ee,inc[NN],phi[NN]; R*rod;
  void start(double x0,double h0,double xe){ x=x0; xend=xe; dir=xe>=x0?1.:-1.; hm=dabs(xe-x0); h=dabs(h0)*dir; if(dabs(h)>hm) h=dir*hm; att=acc=rej=0; ph=0; rejected=false; done=false; last=false;
    double e=(x+h*1.0001-xend)*dir; vf_assume(e>1e-7||e<-1e-7); if(e>0){ h=xend-x; last=true; } ndec=1; njac=1; nf=1; caljac=true;
#ifdef LOGCK
    lg.start(x0);
#endif
  }
  double sc(int i){ return atol[i]+rtol[i]*dabs(y[i]); }
  void f(double t,double*in,double*o){
    for(int i=0;i<NN;i++) o[i]=0.;
    if(ph==0){ // derivative at the start of a step
      if(done){ vf_assert(false,"no step is started once the end is reached"); vf_stop(); }
      vf_close(t,x,1e-9,"a step starts from the time reached"); for(int i=0;i<NN;i++) { vf_close(in[i],y[i],1e-7,"a step starts from the accepted state"); y[i]=in[i]; } x=t; ph=1; return; } // (resynchronised: the differences just bounded do not accumulate)
    if(ph<=3){ 
      if(ph==1){
        if(maxn&&att>maxn+1){ vf_assert(false,"the number of attempts is bounded by the configured maximum"); vf_stop(); }
        if(throwat&&att==throwat-1) throw 1;
        if(att<maxatt) counters(1);
        { double hc=(t-x)/((4-SQ6)/10); vf_close(hc,h,1e-7,"the attempted step size is the one the controller prescribes"); h=hc; }
#ifdef LOGCK
        lk.read(rod->Log()); lg.failures(dir); lg.step_(h,x,att,dir);
#endif
        if(att>=maxatt){ vf_reach("bound"); vf_stop(); }
        double q=safe/g[go+att]; q=q*q*q*q; err=q; double e=eest(vst)/U1c; 
        for(int i=0;i<NN;i++){ double w=NN==1?q:(i?-1.75*q:0.25*q)*0.8; phi[i]=w*sg*sc(i)/(h*e); inc[i]=phi[i]*h*((16-SQ6)/36*vst[0]+(16+SQ6)/36*vst[1]+vst[2]/9); } }
      double c=ph==1?(4-SQ6)/10:ph==2?(4+SQ6)/10:1.;
      vf_close(t,x+c*h,1e-7,"the attempted step size is the one the controller prescribes");
      vf_assert((t-xend)*dir<=1e-9,"no step overshoots the end");
      for(int i=0;i<NN;i++) o[i]=phi[i]*vst[ph-1];
      if(ph==3){ nf+=3; vf_assume(err>1.+1e-7||err<1.-1e-7); if(err<1.) decide_(); else if(acc==0||rejected) ph=4; else decide_(); }
      else ++ph;
      return; }
    // second estimate: times rho
    ++nf; vf_close(t,x,1e-9,"the second estimate is made at the start of the step");
    double r=rho[go+att]==0?1.:rho[go+att]==1?1./256:16.; 
    for(int i=0;i<NN;i++){ vf_close(in[i],y[i]+ (NN==1?err:(i?-1.75*err:0.25*err)*0.8)*sg*sc(i),1e-6,"the second estimate is made at the corrected state"); o[i]=(r-1.)*phi[i]*eest(vst); }
    err=r*err; vf_assume(err>1.+1e-7||err<1.-1e-7); decide_(); }
  void decide_(){
    ++att; double quot=dmax(facr,dmin(facl,std::sqrt(std::sqrt(err))/safe)); double hnew=h/quot;
    if(err<1.){ ++acc; caljac=false; if(acc==1) h1=h;
      if(gus){ if(acc>1){ double fg=(hacc/h)*std::sqrt(std::sqrt(err*err/erracc))/safe; fg=dmax(facr,dmin(facl,fg)); if(fg>quot){ vf_reach("predictive"); quot=fg; } hnew=h/quot; } hacc=h; erracc=dmax(0.01,err); }
      for(int i=0;i<NN;i++) y[i]+=inc[i];
      x+=h; vf_reach("accepted"); 
      if(last){ done=true; ph=0; return; }
      if(one) { ph=0; return; }
      ++nf; if(dabs(hnew)>hm) hnew=dir*hm; bool same=false; if(rejected&&dabs(hnew)>=dabs(h)){ hnew=h; same=true; } rejected=false;
      double e=(x+hnew-xend)*dir; vf_assume(e>1e-7||e<-1e-7);
      if(e>=0){ h=xend-x; last=true; ++ndec; }
      else if(!same){ double qt=hnew/h; vf_assume((qt>1+1e-7||qt<1-1e-7)&&(qt>1.2+1e-7||qt<1.2-1e-7)); if(!(qt>=1.&&qt<=1.2)){ h=hnew; ++ndec; } }
      ph=0; }
    else{ rejected=true; last=false; if(acc==0) h=0.1*h; else h=hnew; if(acc) ++rej; ++ndec; if(!caljac){ ++njac; caljac=true; } ph=1; vf_reach("rejected");
#ifdef LOGCK
      lg.ev(LK_REJ,x,att);
#endif
    }
  }
  void jac(double t,const fortranVector&yy,JM&J){ zeroJ(J); }
  void settings(R&rod){ gus=vf_param("gus"); safe=0.9; int q=vf_param("safe"); if(q){ safe=q/100.; rod.setSafe(safe); } if(!gus) rod.setGustafssonTest(false); facr=1./8; facl=5.; 
    // documented: facl <= h/hold <= facr
    if(vf_param("fac")){ rod.setFacrFacl(4.,0.25); facr=0.25; facl=4.; } rod.setFnewt(1e30); }
  void counters(int run){
    vf_assert(rod->getNstep()==att+run,"number of step attempts"); vf_assert(rod->getNaccpt()==acc,"number of accepted steps");
    vf_assert(rod->getNrejct()==rej,"number of rejected steps (after the first accepted one)");
    vf_assert(rod->getNdec()==ndec,"number of decompositions"); vf_assert(rod->getNJac()==njac,"number of Jacobians"); if(!run||vf_param("nfc")) vf_assert(rod->getNfoncCalled()==nf,"number of function calls"); }
  void final(double xret,double*yy,const char*){ 
    vf_close(xret,x,1e-7,"the returned time is the time reached");
    for(int i=0;i<NN;i++) vf_close(yy[i],y[i],1e-7,"the caller's state holds the solution at the returned time");
    if(one) vf_assert(acc==1,"one-step mode makes exactly one accepted step");
    else{ vf_assert(done,"a normal return means that the end was reached"); vf_close(xret,xend,1e-9,"the returned time is the requested end"); vf_reach("end"); }
    counters(0); vf_close(rod->getfirstAcceptedStep(),h1,1e-7,"the first accepted step is reported");
#ifdef LOGCK
    lk.read(rod->Log()); lg.failures(dir); lk.filters(rod->Log(),lg.n); vf_reach("logged");
#endif
    double hl=rod->getLastTimeStep(); vf_assert(hl*dir>0&&hl*dir<=hm*1.0001,"the reported step has the direction of the integration and fits the interval"); }
};
static void mktol(Ctl&S,bool scalar,std::vector<double>&at,std::vector<double>&rt){ for(int i=0;i<NN;i++){ int k=scalar?0:i; double r=(k+1)*(k+1)*(k+1)/262144.,a=1e-5*(k+1); S.rtol[i]=0.1*std::pow(r,2./3); double quot=a/r; S.atol[i]=S.rtol[i]*quot; if(i<(scalar?1:NN)){ at[i]=a; rt[i]=r; } } }
HARNESS(ctl){
  Ctl S; cur=&S; bool scalar=vf_param("scalar"); 
  std::vector<double> at(scalar?1:NN),rt(scalar?1:NN); mktol(S,scalar,at,rt);
  R rod(scalar,&at[0],&rt[0]); S.settings(rod); S.rod=&rod; S.go=0; S.throwat=0;
  int again=vf_param("again"),ma=vf_param("att"); S.maxatt=ma; int tot=again==2?ma+vf_param("att2"):ma;
  for(int i=0;i<tot;i++){ S.g[i]=vf_double("g",vf_dparam("glo"),9); S.rho[i]=vf_param("rho")==3?vf_int("rho",0,2):vf_param("rho"); } S.sg=vf_param("neg")?-1.:1.;
  double x0=vf_dparam("x0"),xe=vf_dparam("xe"); if(vf_param("symx")){ double l=vf_double("len",0.05,20); double dr=xe>x0?1.:-1.; x0=vf_double("x0",-10,10); xe=x0+dr*l; }
  double h0=vf_param("symh")?vf_double("h",0.05,3):vf_dparam("h0");
  double y[NN]; for(int i=0;i<NN;i++) y[i]=S.y[i]=4.25+i;
  if(vf_param("negh")) h0=-h0;
  S.start(x0,h0,xe); S.one=vf_param("one"); rod.performOnlyOneStep(S.one);
  double x=x0; S.throwat=vf_param("thr"); bool thrown=false; S.maxn=vf_param("nmax"); if(S.maxn) rod.setNmax(S.maxn);
  try{ rod(h0,x,xe,y); }catch(int){ thrown=true; vf_reach("thrown"); }
  catch(OdesException&){ vf_assert(S.maxn&&S.att>=S.maxn,"gives up only once the configured number of attempts is used up"); vf_reach("gaveup"); vf_stop(); }
  if(!thrown){ S.final(x,y,""); vf_obs("x",x); vf_obs("y",y[0]); }
  if(again){ // a second integration with the same object behaves like a fresh one
    S.throwat=0; if(again==2){ S.go=ma; S.maxatt=vf_param("att2"); x0=xe+1; xe=x0+(xe>0?-1.5:2.); h0*=vf_param("att2")==1?8:1.25; } vf_reach("run2");
    for(int i=0;i<NN;i++) y[i]=S.y[i]=4.5+i; S.one=vf_param("one2"); rod.performOnlyOneStep(S.one); S.start(x0,h0,xe); x=x0;
    rod(h0,x,xe,y); S.final(x,y,""); vf_reach("again");
  }
  vf_reach("end2");
}
// ------------------------------------------------------------------ C13: Newton failures (first steps; the increments of the iterates are chosen)
// attempt kinds: 'zero' attempts (F=0) are accepted; the others have increments with norms d1,d2,...
struct New: Scn{
  double x,y,h,xend,dir,d[24],sgn,cv,ke,fnewt,lam[3]; int nit,used,maxatt,att,k,acc,mode[8],fails; bool zero,rejected,ininit,over; double dl,dp,prevz,sum,sc,th; int ph; R*rod;
  double at,rt; bool lastok;
  // W = h/U1 TI1.F , complex part: (W2+iW3) = h/(ALPH+i BETA) (TI2.F + i TI3.F) (as solved by the method)
  double thq,thqo; bool hasth;
  void newattempt(){ hasth=false; k=0; sum=0.; ++att; zero=mode[att-1]==0; dl=dp=0.; ph=0; }
  void f(double t,double*in,double*o){
    o[0]=0.;
    if(ininit){ ininit=false; return; }
    double C[3]={(4-SQ6)/10,(4+SQ6)/10,1.};
    if(ph==0){ // what is this call?
      if(att==0){ newattempt(); }
      else{
        bool atx=vf_decide(dabs(t-x)<1e-9*(1+dabs(x))); 
        if(atx){ vf_assert(k>0,"iterations come first"); accept_or_est(in,o,true,t); return; }
        if(vf_decide(dabs(t-(x+h))<1e-9*(1+dabs(x)+dabs(h))) ){ accepted(in[0]); return; }
        bool same=vf_decide(dabs(t-(x+C[0]*h))<1e-9*dabs(h));
        if(!same||k>=nit||zero){ // a new attempt with another step size
          double hn=(t-x)/C[0]; vf_assert(hn*dir>0,"the step keeps its direction"); vf_assert(hn*dir<=0.8001*h*dir,"a failed attempt is retried with a smaller step"); vf_assert(hn*dir>=h*dir*1e-2,"the step is not reduced without bound at once");
          
#ifdef LOGCK
          { lk.read(rod->Log()); bool byerr=false; for(int i=lk.n-1;i>=0;i--) if(lk.e[i].kind!=LK_CH){ byerr=lk.e[i].kind==LK_REJ; break; } if(byerr) conv(); lg.ev(byerr?LK_REJ:LK_NF,x,att); lg.failures(dir); lg.step_(hn,x,att,dir); vf_reach("logged"); }
#endif
          ++fails; vf_reach("failed"); h=hn; rejected=true; 
          if(att>=maxatt){ vf_reach("bound"); vf_stop(); }
          newattempt(); } } }
    vf_close(t,x+C[ph]*h,1e-7,"stages of the collocation method");
    if(ph==0&&k==0) vf_close(in[0],y,1e-7,"every attempt starts from the unchanged state");
    if(ph==0){ vf_assert(k<nit,"the number of Newton iterations does not exceed the configured limit"); ++k;
      if(!zero){ dp=dl; double dk=d[used++]; dl=dk; if(k>=2&&k<nit){ thq=dl/dp; th=k==2?thq:std::sqrt(thq*thqo); thqo=thq; hasth=true; } sum=sum+((used&1)?sgn:-sgn)*dk; } }
    o[0]=zero?0.:sum*at/(h*cv)*vst[ph]; ph=(ph+1)%3; }
  // conv: a step may be accepted only after a converged iteration
  void conv(){ if(zero) return; if(hasth){ vf_assert(th<1.&&th*dl<=fnewt*(1-th)*(1+1e-6),"a step is accepted only when the Newton iteration has converged"); vf_reach("converged"); }
    else if(att==1) vf_assert(dl<=fnewt*(1+1e-6),"a step is accepted only when the Newton iteration has converged (no rate known)"); }
  void small(){ if(!zero) vf_assert(dabs(sum*eest(vst)/(cv*U1c))<=1+1e-6,"a step is accepted only when its error estimate is below one"); }
  void accept_or_est(double*in,double*o,bool,double t){ // the second error estimate: only when the first exceeded one, for a first or retried step
    conv(); vf_assert(acc==0||rejected,"second estimate only for the first step or after a rejection"); vf_stop(); }
  void accepted(double ynew){ conv(); small(); ++acc; rejected=false; double yn=y+sum*at/cv*((16-SQ6)/36*vst[0]+(16+SQ6)/36*vst[1]+vst[2]/9); vf_close(ynew,yn,1e-6,"the accepted state is the one of the collocation equations");
    x+=h; y=yn; if(!zero){ vf_reach("accepted-nonzero"); vf_stop(); } 
    // zero step: no error; the next proposal is at most eight times larger
    if(att>=maxatt){ vf_reach("bound"); vf_stop(); }
    double hn=h*8; if(hn*dir>(xend-x)*dir) hn=xend-x; h=hn; newattempt(); ph=0; }
  void jac(double t,const fortranVector&yy,JM&J){ zeroJ(J); }
};
#if NN==1
HARNESS(newton){
  New S; cur=&S; S.nit=vf_param("nit"); S.maxatt=vf_param("att"); S.used=0; S.att=S.acc=S.fails=0; S.rejected=false; S.ininit=true; S.ph=0; S.sgn=vf_param("neg")?-1.:1.;
  double r=1./512; S.rt=0.1*std::pow(r,2./3); S.at=0.5; double a=S.at/S.rt*r; // the state is zero
  for(int i=0;i<S.maxatt;i++) S.mode[i]=(vf_param("modes")>>i)&1;
  for(int i=0;i<S.nit*S.maxatt;i++) S.d[i]=vf_double("d",vf_dparam("dlo"),vf_dparam("dhi"));
  // norm of the increments of the transformed variables for F=vst
  double TI[3][3]={{4.3255798900631553510,0.33919925181580986954,0.54177053993587487119},{-4.1787185915519047273,-0.32768282076106238708,0.47662355450055045196},{-0.50287263494578687595,2.5719269498556054292,-0.59603920482822492497}},w[3];
  for(int i=0;i<3;i++){ w[i]=0; for(int j=0;j<3;j++) w[i]+=TI[i][j]*vst[j]; }
  double al=(12.-std::pow(81.,1./3)+std::pow(9.,1./3))/60.,be=(std::pow(81.,1./3)+std::pow(9.,1./3))*std::sqrt(3.)/60.; // 1/(alpha+i beta) = al - i be (already reciprocal)
  // (W2+iW3) = h (w2+i w3)/(ALPH+i BETA), ALPH=al/(al^2+be^2), BETA=be/(..): 1/(ALPH+iBETA)=al-i be
  double W1=w[0]/U1c,W2=w[1]*al+w[2]*be,W3=w[2]*al-w[1]*be; S.cv=std::sqrt((W1*W1+W2*W2+W3*W3)/3);
  S.fnewt=vf_dparam("fnewt"); R rod(true,&a,&r); rod.setFnewt(S.fnewt); rod.setMaxIterationsNewton(S.nit); S.rod=&rod;
  double x0=vf_dparam("x0"),xe=vf_dparam("xe"),h0=vf_dparam("h0"); S.x=x0; S.xend=xe; S.dir=xe>x0?1.:-1.; S.y=0.; S.h=h0*S.dir; if(dabs(h0)*1.0001>dabs(xe-x0)) S.h=xe-x0;
#ifdef LOGCK
  lg.start(x0);
#endif
  double y=0.,x=x0; rod(h0,x,xe,&y);
#ifdef LOGCK
  lk.read(rod.Log()); lg.failures(S.dir); lk.filters(rod.Log(),0); vf_reach("logged");
#endif
  // normal return
  vf_close(x,xe,1e-9,"a normal return means that the end was reached"); S.conv(); S.small();
  double yn=S.y+S.sum*S.at/S.cv*((16-SQ6)/36*vst[0]+(16+SQ6)/36*vst[1]+vst[2]/9); if(S.zero) yn=S.y; vf_close(y,yn,1e-6,"the returned state is the one of the collocation equations");
  vf_close(S.x+S.h,xe,1e-7,"the last step ends at the end");
  vf_reach("end");
}
#endif
#endif
