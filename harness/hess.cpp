// C02, C03: Hessenberg factorisations.  C04: linear-system layer.
#include "vf.h"
#include "protos_lapack.hpp"
#include "Matrices.hpp"
#include <cmath>
using namespace odes;
#ifndef NN
#define NN 2
#endif
#ifndef KL
#define KL (NN-1)
#define KU (NN-1)
#endif
static double val(const char*nm){ return vf_double(nm,-4,4); }
static double num(int i,int j,int seed){ // deterministic, well conditioned entries
  int k=(i*7+j*13+seed*29+i*j*5)%17; return (k-8)/4.0; }
// ---------------------------------------------------------------- real, direct
HARNESS(real){
  fortranArray<NN> A; double a[NN+1][NN+1],b[NN+1]; int ip[NN];
  for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++){ a[i][j]=(i<=j+1)?val("a"):0.; A(i,j)=(i<=j+1)?a[i][j]:77.0/*not part of the matrix*/; }
  fortranVector B(NN); for(int i=1;i<=NN;i++){ b[i]=val("b"); B(i)=b[i]; }
  int ret=dech<NN>(A,ip);
  if(ret==0){
    solh<NN>(A,ip,B);
    for(int i=1;i<=NN;i++){ double r=0; for(int j=1;j<=NN;j++) if(i<=j+1) r+=a[i][j]*B(j); vf_close(r,b[i],1e-6,"solution satisfies the original real Hessenberg system"); }
    vf_obs("x1",B(1)); vf_reach("solved");
  } else vf_reach("singular");
  vf_reach("end");
}
static double det(double a[NN+1][NN+1]){
#if NN==1
  return a[1][1];
#elif NN==2
  return a[1][1]*a[2][2]-a[1][2]*a[2][1];
#else
  return a[1][1]*(a[2][2]*a[3][3]-a[2][3]*a[3][2])-a[1][2]*(a[2][1]*a[3][3])+a[1][3]*(a[2][1]*a[3][2]);
#endif
}
// singular matrices are reported: entries on an integer grid so that the replay is exact
HARNESS(real_singular){
  fortranArray<NN> A; double a[NN+1][NN+1]; int ip[NN];
  for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++){ a[i][j]=(i<=j+1)?(double)vf_int("a",-2,2):0.; A(i,j)=(i<=j+1)?a[i][j]:77.0; }
  int ret=dech<NN>(A,ip);
  double d=det(a);
  vf_assert((ret!=0)==(d==0.),"a real matrix is reported singular exactly when it is");
  vf_assert(ret>=0&&ret<=NN,"reported rank"); vf_reach("end");
}
// ---------------------------------------------------------------- complex, direct
// pattern: base 4 digits say which entries of the upper Hessenberg part are complex(0), real(1), imaginary(2), zero(3)
static void pat(int code,double&re,double&im){ re=im=0.; if(code==0||code==1) re=val("re"); if(code==0||code==2) im=val("im"); }
HARNESS(cplx){
  fortranArray<NN> A,C; double r[NN+1][NN+1],m[NN+1][NN+1],br[NN+1],bi[NN+1]; int ip[NN]; int code=vf_param("pattern");
  for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++){ r[i][j]=m[i][j]=0.; A(i,j)=77.;C(i,j)=78.; if(i<=j+1){ pat(code&3,r[i][j],m[i][j]); code>>=2; A(i,j)=r[i][j]; C(i,j)=m[i][j]; } }
  fortranVector X(NN),Y(NN); for(int i=1;i<=NN;i++){ br[i]=val("b"); bi[i]=val("c"); X(i)=br[i]; Y(i)=bi[i]; }
  int ret=dechc<NN>(A,C,ip);
  if(ret==0){
    solhc<NN>(A,C,ip,X,Y);
    for(int i=1;i<=NN;i++){ double sr=0,si=0; for(int j=1;j<=NN;j++) if(i<=j+1){ sr+=r[i][j]*X(j)-m[i][j]*Y(j); si+=r[i][j]*Y(j)+m[i][j]*X(j); }
      vf_close(sr,br[i],1e-6,"solution satisfies the original complex Hessenberg system (real part)"); vf_close(si,bi[i],1e-6,"solution satisfies the original complex Hessenberg system (imaginary part)"); }
    vf_obs("x1",X(1)); vf_reach("solved");
  } else vf_reach("singular");
  vf_reach("end");
}
HARNESS(cplx_singular){
  fortranArray<NN> A,C; int ip[NN]; double r[4][4],m[4][4]; int code=vf_param("pattern");
  for(int i=1;i<=NN;i++)for(int j=1;j<=NN;j++){ r[i][j]=m[i][j]=0.; A(i,j)=77.;C(i,j)=78.;
    if(i<=j+1){ int c=code&3; code>>=2; if(c==0||c==1) r[i][j]=vf_int("re",-2,2); if(c==0||c==2) m[i][j]=vf_int("im",-2,2); A(i,j)=r[i][j]; C(i,j)=m[i][j]; } }
  int ret=dechc<NN>(A,C,ip);
  double dr,di;
#if NN==1
  dr=r[1][1]; di=m[1][1];
#else
  dr=r[1][1]*r[2][2]-m[1][1]*m[2][2]-(r[1][2]*r[2][1]-m[1][2]*m[2][1]);
  di=r[1][1]*m[2][2]+m[1][1]*r[2][2]-(r[1][2]*m[2][1]+m[1][2]*r[2][1]);
#endif
  vf_assert((ret!=0)==(dr==0.&&di==0.),"a complex matrix is reported singular exactly when it is"); vf_reach("end");
}
// ---------------------------------------------------------------- layer
template<bool full,bool hes> struct M: public Matrices<full,hes,NN,KL,KU>{
  typedef Matrices<full,hes,NN,KL,KU> B;
  using B::decomr; using B::decomc; using B::solvereal; using B::solvecomplex; using B::calhes; using B::Ibegin; using B::Iend;
  M(){ calhes=true; }
};
#ifdef HESS
typedef M<true,true> MM;
#elif defined(BAND)
typedef M<false,false> MM;
#else
typedef M<true,false> MM;
#endif
#define INB(i,j) ((j)>=(i)-KL&&(j)<=(i)+KU)
struct Sys{ double j[NN+1][NN+1];
  // mode 0: every entry symbolic; 1: concrete matrix number 'seed'; 2: symbolic diagonal, concrete rest
  void make(int mode,int seed){
    for(int i=1;i<=NN;i++)for(int k=1;k<=NN;k++) j[i][k]=INB(i,k)?((mode==0||(mode==2&&i==k)||(mode==3&&(vf_param("mask")>>((i-1)*NN+k-1)&1)))?val("J"):num(i,k,seed)):0.;
#if defined(HESS)&&NN==3
    if(mode==0||mode==3){ // first column chosen through the reflector it generates
      double v=vf_double("v",-2,2),be=val("beta"),t=2./(1.+v*v); j[2][1]=be*(1.-t); j[3][1]=-be*t*v; vf_hint_gehrd(v); }
#endif
  }
  void put(typename MM::MatrixReal&J){
#ifdef BAND
    for(int k=0;k<(2*KL+KU+1)*NN;k++) (&J)[k]=7.5;
#endif
    for(int i=1;i<=NN;i++)for(int k=1;k<=NN;k++) if(INB(i,k)) J(i,k)=j[i][k]; }
  void unaltered(typename MM::MatrixReal&J){
#ifndef HESS
    for(int i=1;i<=NN;i++)for(int k=1;k<=NN;k++) if(INB(i,k)) vf_close(J(i,k),j[i][k],0,"the Jacobian is not altered by factorisation");
#endif
  }
};
static void chk_real(Sys&S,double fac,fortranVectorF<NN>&Z,double*b){
  for(int i=1;i<=NN;i++){ double r=fac*Z(i); for(int k=1;k<=NN;k++) if(INB(i,k)) r-=S.j[i][k]*Z(k); vf_close(r,b[i],1e-6,"real solve: (shift*I - J) x = b"); } }
static void chk_cplx(Sys&S,double al,double be,fortranVectorF<NN>&X,fortranVectorF<NN>&Y,double*b,double*c){
  for(int i=1;i<=NN;i++){ double r=al*X(i)-be*Y(i),s=al*Y(i)+be*X(i); for(int k=1;k<=NN;k++) if(INB(i,k)){ r-=S.j[i][k]*X(k); s-=S.j[i][k]*Y(k); }
    vf_close(r,b[i],1e-6,"complex solve: ((a+ib)I - J)(x+iy) = rhs, real part"); vf_close(s,c[i],1e-6,"complex solve: ((a+ib)I - J)(x+iy) = rhs, imaginary part"); } }
HARNESS(layer_real){
  MM m; typename MM::MatrixReal J; Sys S; S.make(vf_param("mode"),vf_param("seed")); S.put(J);
  int rep=vf_param("rep");
  for(int q=0;q<rep;q++){ // refactorisation with another shift, same Jacobian
    double fac=vf_param("mode")==1?9.5+3*q:vf_double("fac",0.25,20); double b[NN+1]; fortranVectorF<NN> Z; for(int i=1;i<=NN;i++){ b[i]=val("b"); Z(i)=b[i]; }
    bool thrown=false;
    try{ m.decomr(fac,J); }catch(OdesException){thrown=true;}
    if(thrown){ vf_reach("thrown"); vf_stop(); }
    m.solvereal(Z,J); chk_real(S,fac,Z,b);
    // a second right-hand side with the same factorisation
    double d[NN+1]; fortranVectorF<NN> W; for(int i=1;i<=NN;i++){ d[i]=val("d"); W(i)=d[i]; }
    m.solvereal(W,J); chk_real(S,fac,W,d);
    vf_obs("z",Z(1));
  }
  S.unaltered(J); vf_reach("end");
}
HARNESS(layer_cplx){
  MM m; typename MM::MatrixReal J; Sys S; S.make(vf_param("mode"),vf_param("seed")); S.put(J); int rep=vf_param("rep");
  bool conc=vf_param("mode")==1;
  double fac=8.; try{ m.decomr(fac,J); }catch(OdesException){ vf_reach("thrown"); vf_stop(); } // Radau: the real factorisation always comes first (it reduces J in Hessenberg mode)
  for(int q=0;q<rep;q++){
    double al=conc?5.25+2*q:vf_double("al",0.25,20),be=conc?3.5+q:vf_double("be",0.25,20); double b[NN+1],c[NN+1]; fortranVectorF<NN> X,Y;
    for(int i=1;i<=NN;i++){ b[i]=val("b"); c[i]=val("c"); X(i)=b[i]; Y(i)=c[i]; }
    bool thrown=false;
    try{ m.decomc(al,be,J); }catch(OdesException){thrown=true;}
    if(thrown){ vf_reach("thrown"); vf_stop(); }
    m.solvecomplex(X,Y,J); chk_cplx(S,al,be,X,Y,b,c);
    // real system still solvable with its own factorisation
    double d[NN+1]; fortranVectorF<NN> W; for(int i=1;i<=NN;i++){ d[i]=val("d"); W(i)=d[i]; }
    m.solvereal(W,J); chk_real(S,fac,W,d);
    vf_obs("x",X(1)); vf_obs("y",Y(1));
  }
  S.unaltered(J); vf_reach("end");
}
// an exactly singular system must throw (both systems), a regular one must not
HARNESS(layer_singular){
  MM m; typename MM::MatrixReal J; Sys S; int cx=vf_param("cx");
  for(int i=1;i<=NN;i++)for(int k=1;k<=NN;k++) S.j[i][k]=(INB(i,k)&&(i<=k+1))?(double)vf_int("J",-1,1):0.;
  S.put(J);
  bool thrown=false; double sh=(double)vf_int("shift",1,2);
  // singular iff shift (real) or shift + i*beta is an eigenvalue
  double a=sh-S.j[1][1],b=0;
#if NN==1
  double d=a;
  double d2=1; // complex determinant: (al-j)+i be
#else
  double d=(sh-S.j[1][1])*(sh-S.j[2][2])-S.j[1][2]*S.j[2][1];
#endif
  if(!cx){ try{ m.decomr(sh,J); }catch(OdesException){thrown=true;}
    vf_assert(thrown==(d==0.),"the real factorisation throws exactly when the system is singular"); }
  else{
    try{ m.decomr(8.,J); }catch(OdesException){ vf_assert(false,"a regular system throws"); vf_stop(); }
    double al=(double)vf_int("al",-1,1),be=(double)vf_int("be",1,2);
    try{ m.decomc(al,be,J); }catch(OdesException){thrown=true;}
#if NN==1
    double dr=al-S.j[1][1],di=be;
#else
    double p=al-S.j[1][1],q=al-S.j[2][2]; double dr=p*q-be*be-S.j[1][2]*S.j[2][1],di=be*(p+q);
#endif
    vf_assert(thrown==(dr==0.&&di==0.),"the complex factorisation throws exactly when the system is singular");
  }
  vf_reach("end");
}
