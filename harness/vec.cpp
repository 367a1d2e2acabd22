// C05: vector kernels.
#include "vf.h"
#include "fortranVector.hpp"
using namespace odes;
#ifndef NN
#define NN 3
#endif
typedef fortranVectorF<NN> V;
static const double TOL=1e-9;
static void fill(V& v,double*c,const char*nm){ for(int i=1;i<=NN;i++){ c[i-1]=vf_double(nm,-10,10); v(i)=c[i-1]; } }
static void same(V& v,double*c,const char*m){ for(int i=1;i<=NN;i++) vf_close(v(i),c[i-1],0,m); }
// every kernel after an arbitrary number (0..2) of storage exchanges of every operand with a spare vector
struct Ctx{
  V T,X1,X2,X3,X4,X5,W; double c[7][NN]; double s[5];
  Ctx(int sw){
    fill(T,c[0],"t"); fill(X1,c[1],"x1"); fill(X2,c[2],"x2"); fill(X3,c[3],"x3"); fill(X4,c[4],"x4"); fill(X5,c[5],"x5");
    for(int i=1;i<=NN;i++){W(i)=0.;c[6][i-1]=0.;}
    for(int k=0;k<5;k++) s[k]=vf_double("a",-3,3);
    if(sw&1){ T.switchadr(W); for(int i=0;i<NN;i++){double u=c[0][i];c[0][i]=c[6][i];c[6][i]=u;} }
    if(sw&2){ X1.switchadr(X2); for(int i=0;i<NN;i++){double u=c[1][i];c[1][i]=c[2][i];c[2][i]=u;} }
    if(sw&4){ X3.switchadr(T); for(int i=0;i<NN;i++){double u=c[3][i];c[3][i]=c[0][i];c[0][i]=u;} }
    same(T,c[0],"storage exchange moves the contents"); same(W,c[6],"storage exchange moves the contents");
    same(X1,c[1],"storage exchange moves the contents"); same(X3,c[3],"storage exchange moves the contents");
  }
  // operands unchanged (T is the target)
  void ops(){ same(X1,c[1],"operand unchanged");same(X2,c[2],"operand unchanged");same(X3,c[3],"operand unchanged");
    same(X4,c[4],"operand unchanged");same(X5,c[5],"operand unchanged");same(W,c[6],"unrelated vector unchanged");}
  void tgt(double*e,const char*m){ for(int i=1;i<=NN;i++){ vf_close(T(i),e[i-1],TOL,m); vf_close((&T)[i-1],e[i-1],TOL,m);} vf_obs("t1",T(1)); vf_obs("tn",T(NN)); }
};
#define EACH for(int i=0;i<NN;i++)
HARNESS(all){
  int sw=vf_int("sw",0,7); int op=vf_param("op"); double e[NN];
  for(int q=0;q<8;q++) if(sw==q){ sw=q; break; }
  Ctx K(sw); double(*c)[NN]=K.c; double*s=K.s; V&T=K.T;
  bool isf=true;
  switch(op){
  case 0: T=s[0]; EACH e[i]=s[0]; break;
  case 1: { double tab[NN]; EACH tab[i]=vf_double("tab",-10,10); T=tab; EACH e[i]=tab[i]; break; }
  case 2: T.setsum2(K.X1,K.X2); EACH e[i]=c[1][i]+c[2][i]; break;
  case 3: T=K.X1; EACH e[i]=c[1][i]; break;
  case 4: T+=K.X1; EACH e[i]=c[0][i]+c[1][i]; break;
  case 5: T.sum(K.X1,K.X2); EACH e[i]=c[1][i]+c[2][i]; break;
  case 6: { fortranVector&Y=K.X2; T.sum(K.X1,Y); EACH e[i]=c[1][i]+c[2][i]; break; }
  case 7: T.a_Y(s[0],K.X1); EACH e[i]=s[0]*c[1][i]; break;
  case 8: T.x_lc2(K.X1,s[0],K.X2,s[1],K.X3); EACH e[i]=c[1][i]+s[0]*c[2][i]+s[1]*c[3][i]; break;
  case 9: T.lc2(s[0],K.X1,s[1],K.X2); EACH e[i]=s[0]*c[1][i]+s[1]*c[2][i]; break;
  case 10: T.lc3(s[0],K.X1,s[1],K.X2,s[2],K.X3); EACH e[i]=s[0]*c[1][i]+s[1]*c[2][i]+s[2]*c[3][i]; break;
  case 11: T.lc4(s[0],K.X1,s[1],K.X2,s[2],K.X3,s[3],K.X4); EACH e[i]=s[0]*c[1][i]+s[1]*c[2][i]+s[2]*c[3][i]+s[3]*c[4][i]; break;
  case 12: T.lc5(s[0],K.X1,s[1],K.X2,s[2],K.X3,s[3],K.X4,s[4],K.X5); EACH e[i]=s[0]*c[1][i]+s[1]*c[2][i]+s[2]*c[3][i]+s[3]*c[4][i]+s[4]*c[5][i]; break;
  case 13: T.x_lc3(K.X1,s[0],K.X2,s[1],K.X3,s[2],K.X4); EACH e[i]=c[1][i]+s[0]*c[2][i]+s[1]*c[3][i]+s[2]*c[4][i]; break;
  case 14: T.x_lc4(K.X1,s[0],K.X2,s[1],K.X3,s[2],K.X4,s[3],K.X5); EACH e[i]=c[1][i]+s[0]*c[2][i]+s[1]*c[3][i]+s[2]*c[4][i]+s[3]*c[5][i]; break;
  case 15: T.a_x_plus_y(s[0],K.X1,K.X2); EACH e[i]=s[0]*c[1][i]+c[2][i]; break;
  case 16: { double out[NN]; EACH out[i]=0.; T.put(out); EACH vf_close(out[i],c[0][i],0,"export to a plain array copies every component"); EACH e[i]=c[0][i]; break; }
  case 17: { fortranVector A(NN),B(NN); EACH{A(i+1)=c[1][i];B(i+1)=c[2][i];} A=B; EACH{ vf_close(A(i+1),c[2][i],0,"assignment copies"); vf_close(B(i+1),c[2][i],0,"assignment leaves its source alone");}
      A+=B; EACH vf_close(A(i+1),2*c[2][i],TOL,"in-place addition"); T.sum(K.X1,A); EACH e[i]=c[1][i]+2*c[2][i]; break; }
  case 18: { double buf[NN]; EACH buf[i]=c[1][i]; fortranVector A(buf,NN); vf_assert(A.get_size()==NN,"adopted size"); EACH vf_close(A(i+1),c[1][i],0,"adopted array is seen");
      A(NN)=5.; vf_close(buf[NN-1],5.,0,"adopted array is written"); fortranVector&R=T; R=K.X3; EACH e[i]=c[3][i]; break; }
  case 19: { fortranVector&R=T; R+=K.X1; EACH e[i]=c[0][i]+c[1][i]; break; }
  // target also an operand
  case 20: T.sum(T,K.X1); EACH e[i]=c[0][i]+c[1][i]; break;
  case 21: T.lc2(s[0],T,s[1],K.X1); EACH e[i]=s[0]*c[0][i]+s[1]*c[1][i]; break;
  case 22: T.x_lc2(T,s[0],K.X1,s[1],T); EACH e[i]=c[0][i]+s[0]*c[1][i]+s[1]*c[0][i]; break;
  case 23: T.a_x_plus_y(s[0],K.X1,T); EACH e[i]=s[0]*c[1][i]+c[0][i]; break;
  case 24: T.x_lc4(K.X1,s[0],T,s[1],K.X3,s[2],K.X4,s[3],K.X5); EACH e[i]=c[1][i]+s[0]*c[0][i]+s[1]*c[3][i]+s[2]*c[4][i]+s[3]*c[5][i]; break;
  case 25: T.lc5(s[0],T,s[1],K.X2,s[2],K.X3,s[3],K.X4,s[4],T); EACH e[i]=s[0]*c[0][i]+s[1]*c[2][i]+s[2]*c[3][i]+s[3]*c[4][i]+s[4]*c[0][i]; break;
  case 26: { double buf[NN+1]; double*b=buf+1; EACH b[i]=c[1][i]; fortranVector A(b,NN); fortranVector&R=K.X2; A=R; EACH vf_close(b[i],c[2][i],0,"assignment to an adopted array");
      A+=K.X3; EACH vf_close(b[i],c[2][i]+c[3][i],TOL,"addition to an adopted array"); T.sum(K.X1,A); EACH e[i]=c[1][i]+c[2][i]+c[3][i]; break; }
  case 27: { double buf[NN+1]; double*b=buf+1; EACH b[i]=c[1][i]; fortranVector A(b,NN); T.setsum2(A,K.X2); EACH e[i]=c[1][i]+c[2][i]; fortranVector&R=K.W; R=A; EACH{ vf_close(K.W(i+1),c[1][i],0,"assignment from an adopted array"); c[6][i]=c[1][i]; } break; }
  default: T(1)=0; EACH e[i]=c[0][i]; e[0]=0;
  }
  vf_reach("end");
  K.tgt(e,"kernel yields the stated combination"); K.ops();
}
