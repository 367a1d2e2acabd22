// C01: storage layout of the four matrix classes.
#include "vf.h"
#include "fortranArray.hpp"
#include "fortranComplexArray.hpp"
#include "fortranRectangularArray.hpp"
#include "fortranRectangularComplexArray.hpp"
using namespace odes;
#ifndef NN
#define NN 3
#define KL 1
#define KU 1
#endif
static int sym(const char*n,int lo,int hi){ return vf_int(n,lo,hi); }
static double val(){ return vf_double("v",-5,5); }
// ---- addresses for a symbolic element
HARNESS(full_addr){
  fortranArray<NN> A; double*b=&A; for(int k=0;k<NN*NN;k++) b[k]=7.; int i=sym("i",1,NN),j=sym("j",1,NN);
  long o=&A(i,j)-b;
  vf_assert(o==(long)(j-1)*NN+(i-1),"full: element (i,j) is at column-major position");
  vf_assert(o>=0&&o<NN*NN,"full: element inside the storage");
  A(i,j)=2.5; const fortranArray<NN>&C=A; vf_close(C(i,j),2.5,0,"full: const access reads the element written"); vf_reach("end");
}
HARNESS(cfull_addr){
  fortranComplexArray<NN> A; double*b=&A; for(int k=0;k<2*NN*NN;k++) b[k]=7.; int i=sym("i",1,NN),j=sym("j",1,NN);
  long o=&A.Re(i,j)-b,p=&A.Im(i,j)-b;
  vf_assert(o==2*((long)(j-1)*NN+(i-1)),"complex: real part position"); vf_assert(p==o+1,"complex: imaginary part follows the real part");
  A.set(i,j,2.5,-1.5); vf_close(b[o],2.5,0,"complex set: real part"); vf_close(b[p],-1.5,0,"complex set: imaginary part"); vf_reach("end");
}
HARNESS(band_addr){
  fortranRectangularArray<NN,KL,KU> A; double*b=&A; for(int k=0;k<(2*KL+KU+1)*NN;k++) b[k]=7.; int i=sym("i",1,NN),j=sym("j",1,NN);
  vf_assume(j>=i-KL&&j<=i+KU);
  const int ld=2*KL+KU+1; long o=&A(i,j)-b;
  vf_assert(o==(long)(KL+KU+i-j)+(long)(j-1)*ld,"banded: element (i,j) is where dgbtrf expects it");
  vf_assert(o>=0&&o<(long)ld*NN,"banded: element inside the storage");
  A(i,j)=2.5; const fortranRectangularArray<NN,KL,KU>&C=A; vf_close(C(i,j),2.5,0,"banded: const access reads the element written"); vf_reach("end");
}
HARNESS(cband_addr){
  fortranRectangularComplexArray<NN,KL,KU> A; double*b=&A; for(int k=0;k<2*(2*KL+KU+1)*NN;k++) b[k]=7.; int i=sym("i",1,NN),j=sym("j",1,NN);
  vf_assume(j>=i-KL&&j<=i+KU);
  const int ld=2*KL+KU+1; long o=&A.Re(i,j)-b,p=&A.Im(i,j)-b;
  vf_assert(o==2*((long)(KL+KU+i-j)+(long)(j-1)*ld),"complex banded: real part is where zgbtrf expects it"); vf_assert(p==o+1,"complex banded: imaginary part follows the real part");
  vf_assert(o>=0&&p<(long)2*ld*NN,"complex banded: element inside the storage");
  A.set(i,j,2.5,-1.5); vf_close(b[o],2.5,0,"complex banded set: real part"); vf_close(b[p],-1.5,0,"complex banded set: imaginary part"); vf_reach("end");
}
// ---- contents: every element has its own symbolic value
HARNESS(full_vals){
  fortranArray<NN> A,B; double v[NN][NN]; const fortranArray<NN>&C=A;
  for(int i=0;i<NN;i++)for(int j=0;j<NN;j++){ v[i][j]=val(); A(i+1,j+1)=v[i][j]; }
  for(int i=0;i<NN;i++)for(int j=0;j<NN;j++){ vf_close(C(i+1,j+1),v[i][j],0,"full: elements are independent"); vf_close((&A)[j*NN+i],v[i][j],0,"full: layout"); }
  double s=val(); B.equal_minus(A); B.addDiag(s);
  for(int i=0;i<NN;i++)for(int j=0;j<NN;j++){ vf_close(B(i+1,j+1),(i==j?s:0.)-v[i][j],1e-12,"full: shift minus Jacobian"); vf_close(A(i+1,j+1),v[i][j],0,"full: the Jacobian is not altered"); }
  vf_obs("b11",B(1,1)); vf_obs("bn1",B(NN,1)); vf_reach("end");
}
HARNESS(cfull_vals){
  fortranComplexArray<NN> A; double v[NN][NN],w[NN][NN];
  for(int i=0;i<NN;i++)for(int j=0;j<NN;j++){ v[i][j]=val(); w[i][j]=val(); if((i+j)%2) {A.set(i+1,j+1,v[i][j],w[i][j]);} else {A.Re(i+1,j+1)=v[i][j];A.Im(i+1,j+1)=w[i][j];} }
  for(int i=0;i<NN;i++)for(int j=0;j<NN;j++){ vf_close((&A)[2*(j*NN+i)],v[i][j],0,"complex: layout, real part"); vf_close((&A)[2*(j*NN+i)+1],w[i][j],0,"complex: layout, imaginary part");
    vf_close(A.Re(i+1,j+1),v[i][j],0,"complex: real parts are independent"); vf_close(A.Im(i+1,j+1),w[i][j],0,"complex: imaginary parts are independent"); }
  A.set(1,NN,val()); vf_close(A.Im(1,NN),0.,0,"complex set with one argument clears the imaginary part"); vf_reach("end");
}
#define BAND(i,j) ((j)>=(i)-KL&&(j)<=(i)+KU)
HARNESS(band_vals){
  fortranRectangularArray<NN,KL,KU> A,B; double v[NN][NN]; const int ld=2*KL+KU+1;
  for(int k=0;k<ld*NN;k++) (&A)[k]=7.0; // fill-in rows hold anything
  for(int i=0;i<NN;i++)for(int j=0;j<NN;j++) if(BAND(i,j)){ v[i][j]=val(); A(i+1,j+1)=v[i][j]; }
  double s=val(); B.equal_minus(A); B.addDiag(s);
  for(int i=0;i<NN;i++)for(int j=0;j<NN;j++) if(BAND(i,j)){
    vf_close(A(i+1,j+1),v[i][j],0,"banded: elements are independent"); vf_close((&A)[KL+KU+i-j+j*ld],v[i][j],0,"banded: layout");
    vf_close(B(i+1,j+1),(i==j?s:0.)-v[i][j],1e-12,"banded: shift minus Jacobian"); vf_close((&B)[KL+KU+i-j+j*ld],(i==j?s:0.)-v[i][j],1e-12,"banded: shift minus Jacobian, layout"); }
  vf_obs("b11",B(1,1)); vf_reach("end");
}
HARNESS(cband_vals){
  fortranRectangularComplexArray<NN,KL,KU> A; double v[NN][NN],w[NN][NN]; const int ld=2*KL+KU+1;
  for(int i=0;i<NN;i++)for(int j=0;j<NN;j++) if(BAND(i,j)){ v[i][j]=val(); w[i][j]=val(); if((i+j)%2) {A.set(i+1,j+1,v[i][j],w[i][j]);} else {A.Re(i+1,j+1)=v[i][j];A.Im(i+1,j+1)=w[i][j];} }
  for(int i=0;i<NN;i++)for(int j=0;j<NN;j++) if(BAND(i,j)){ long k=2*(KL+KU+i-j+j*ld);
    vf_close((&A)[k],v[i][j],0,"complex banded: layout, real part"); vf_close((&A)[k+1],w[i][j],0,"complex banded: layout, imaginary part");
    vf_close(A.Re(i+1,j+1),v[i][j],0,"complex banded: real parts are independent"); vf_close(A.Im(i+1,j+1),w[i][j],0,"complex banded: imaginary parts are independent"); }
  A.set(NN,NN,val()); vf_close(A.Im(NN,NN),0.,0,"complex banded set with one argument clears the imaginary part"); vf_reach("end");
}
// copying a matrix object gives an independent object with the same contents
HARNESS(full_copy){
  fortranArray<NN> A; double v[NN][NN];
  for(int i=0;i<NN;i++)for(int j=0;j<NN;j++){ v[i][j]=val(); A(i+1,j+1)=v[i][j]; }
  { fortranArray<NN> B(A);
    for(int i=0;i<NN;i++)for(int j=0;j<NN;j++) vf_close(B(i+1,j+1),v[i][j],0,"a copied matrix has the same elements");
    B(1,1)=99.; vf_close(A(1,1),v[0][0],0,"a copied matrix is independent of its source"); }
  vf_close(A(NN,NN),v[NN-1][NN-1],0,"destroying a copy leaves the source alone"); vf_reach("end");
}
