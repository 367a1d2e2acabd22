// Order conditions: the step is a power series in the symbolic scale eps of the right-hand side.
// Symbolic run: series arithmetic in the engine (truncated above degree D).  Native replay: the
// coefficients of eps^0..eps^D are recovered from runs at Chebyshev points.
#ifndef SERIES_H
#define SERIES_H
#include "vf.h"
#include <cmath>
#include <vector>
// residual(eps,r): r[0..m-1] = numerical minus exact values
template<class RES> void series_close(int m,int D,double tol,const char*msg,RES residual){
  std::vector<double> r(m);
  if(vf_symbolic()){
    double eps=vf_double("eps",0,1);
    residual(eps,&r[0]);
    for(int i=0;i<m;i++) vf_close(r[i],0.,tol,msg);
  }else{
    (void)vf_double("eps",0,1);
    const int K=15; const double rho=0.5; std::vector<std::vector<double>> v(K,std::vector<double>(m)); std::vector<double> x(K);
    for(int k=0;k<K;k++){ x[k]=std::cos(M_PI*(k+.5)/K); residual(rho*x[k],&v[k][0]); }
    for(int i=0;i<m;i++){
      // Chebyshev coefficients, then monomial coefficients
      std::vector<double> c(K);
      for(int q=0;q<K;q++){ double s=0; for(int k=0;k<K;k++) s+=v[k][i]*std::cos(M_PI*q*(k+.5)/K); c[q]=s*(q?2.:1.)/K; }
      std::vector<double> a(K,0.),T0(K,0.),T1(K,0.); T0[0]=1; T1[1]=1;
      for(int q=0;q<K;q++){ for(int k=0;k<K;k++) a[k]+=c[q]*T0[k]; std::vector<double> T2(K,0.); for(int k=0;k<K;k++) T2[k]=(k?2*T1[k-1]:0.)-T0[k]; T0=T1; T1=T2; }
      for(int k=0;k<=D;k++) vf_close(a[k]/std::pow(rho,k),0.,tol,msg);
    }
  }
}
// polynomials in t of degree <=Q
template<int Q> struct Pol{ double a[Q+1]; Pol(double c=0){for(int i=0;i<=Q;i++)a[i]=0.; a[0]=c;} 
  Pol operator+(const Pol&o)const{Pol r; for(int i=0;i<=Q;i++) r.a[i]=a[i]+o.a[i]; return r;}
  Pol operator*(const Pol&o)const{Pol r; for(int i=0;i<=Q;i++)for(int j=0;i+j<=Q;j++) r.a[i+j]=r.a[i+j]+a[i]*o.a[j]; return r;}
  Pol operator*(double c)const{Pol r; for(int i=0;i<=Q;i++) r.a[i]=a[i]*c; return r;}
  Pol integ(double y0)const{Pol r; r.a[0]=y0; for(int i=0;i<Q;i++) r.a[i+1]=a[i]/(i+1); return r;}
  double at(double t)const{double s=a[Q]; for(int i=Q-1;i>=0;i--) s=s*t+a[i]; return s;} };
#endif
