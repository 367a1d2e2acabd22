From be81022e51d4985f407841156ac6f45b75f4a574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 01/40] fix: fortranVectorF::put writes the caller's array

---
 common/include/fortranVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/fortranVector.hpp b/common/include/fortranVector.hpp
index b361a26..d3f1b95 100644
--- a/common/include/fortranVector.hpp
+++ b/common/include/fortranVector.hpp
@@ -407,10 +407,10 @@ public:
     inline void put(double _x[])
     {
       //std::copy(y,y+n,x);
-      ASSUME_ALIGNED(x);ASSUME_ALIGNED(_x);
+      ASSUME_ALIGNED(x);
 #include "Ivdep.hpp"
       for(int i=0;i<n;i++)
-	y[i]=x[i];
+	_x[i]=x[i];
     }
     //! print
     void print(string s="") const
-- 
2.43.0


From d7cd1a4ceedcc801e181566aa7b2be8dd2f77ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 02/40] fix: fortranVector assignment takes its source by
 reference (a by-value copy released the source's storage)

---
 common/include/fortranVector.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/common/include/fortranVector.hpp b/common/include/fortranVector.hpp
index d3f1b95..dbb51b2 100644
--- a/common/include/fortranVector.hpp
+++ b/common/include/fortranVector.hpp
@@ -89,13 +89,14 @@ public:
   //! copy constructor
   //! \param V object to copy
   //! \note nothing is checked! not safe.
-  inline void operator=(fortranVector V)
+  inline void operator=(const fortranVector& V)
   {
     //std::copy(V.x,V.x+size,x);
-    ASSUME_ALIGNED(x);ASSUME_ALIGNED(V.x);
+    const double *vx=V.x;
+    ASSUME_ALIGNED(x);ASSUME_ALIGNED(vx);
 #include "Ivdep.hpp"
     for(int i=0;i<size;i++)
-      x[i]=V.x[i];
+      x[i]=vx[i];
   }
   //! operator +=
   //! \param F to be added.
-- 
2.43.0


From 395e853ff997255d1f6634072e449d03f3895b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 03/40] fix: do not assume the alignment of adopted arrays

---
 common/include/fortranVector.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/common/include/fortranVector.hpp b/common/include/fortranVector.hpp
index dbb51b2..fc06ab0 100644
--- a/common/include/fortranVector.hpp
+++ b/common/include/fortranVector.hpp
@@ -92,17 +92,15 @@ public:
   inline void operator=(const fortranVector& V)
   {
     //std::copy(V.x,V.x+size,x);
-    const double *vx=V.x;
-    ASSUME_ALIGNED(x);ASSUME_ALIGNED(vx);
+    // x or V.x can be an adopted array: no alignment can be assumed.
 #include "Ivdep.hpp"
     for(int i=0;i<size;i++)
-      x[i]=vx[i];
+      x[i]=V.x[i];
   }
   //! operator +=
   //! \param F to be added.
   inline void operator+=(fortranVector& F)
     {
-      ASSUME_ALIGNED(x);ASSUME_ALIGNED(F.x);
 #include "Ivdep.hpp"
       for(int i=0;i<size;i++)
 	x[i]+=F.x[i];
@@ -204,7 +202,6 @@ public:
 			       n,X.get_size(),Y.get_size());
 #endif
       double *xx=&X,*yy=&Y;
-      ASSUME_ALIGNED(xx);ASSUME_ALIGNED(yy);
 #include "Ivdep.hpp"
       for(int i=0;i<n;i++)
       	y[i]=xx[i]+yy[i];
@@ -242,7 +239,7 @@ public:
     //! \param Y fortranVector<n>
     inline void sum(fortranVectorF<n>& X,fortranVector& Y)
     {
-     ASSUME_ALIGNED(y);ASSUME_ALIGNED(X.y);ASSUME_ALIGNED(Y.x);
+     ASSUME_ALIGNED(y);ASSUME_ALIGNED(X.y);
 #include "Ivdep.hpp"
       for(int i=0;i<n;i++)
 	y[i]=X.y[i]+Y.x[i];
-- 
2.43.0


From 64b2b3741afb4098102d625175ef2a91d4b324fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 04/40] fix: fortranArray copy constructor allocates its
 storage

---
 common/include/fortranArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/fortranArray.hpp b/common/include/fortranArray.hpp
index c988d23..afc4e24 100644
--- a/common/include/fortranArray.hpp
+++ b/common/include/fortranArray.hpp
@@ -26,7 +26,7 @@ public:
   //! constructor (copy).
   fortranArray(const fortranArray<n>& AA )
   {
-    ASSUME_ALIGNED(x);ASSUME_ALIGNED(AA.x);
+    x=allocDoubleArray(n2);
 #include "Ivdep.hpp"
     for(int i=0;i<n*n;i++)
       x[i]=AA.x[i];
-- 
2.43.0


From 51381b0d6198cfc9c54855a6c0834176e2a7cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 05/40] fix: dechc multiplies by the imaginary part of a purely
 imaginary pivot row entry

---
 common/include/Hessenberg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 377a6db..405a190 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -167,7 +167,7 @@ template<int n> int dechc(fortranArray<n>& Ar,fortranArray<n>& Ai,int ip[])
 		else if(tr==0.0)
 		  for(int i=kp1;i<=na;i++)
 		    {
-		      double prodr=-Ai(i,k)*ti,  prodi=Ar(i,k)*tr;
+		      double prodr=-Ai(i,k)*ti,  prodi=Ar(i,k)*ti;
 		      Ar(i,j)+=prodr;           Ai(i,j)+=prodi;
 		    }
 		else
-- 
2.43.0


From c22d77dcfa9396919177a18d3833cf2156559355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 06/40] fix: report a singular complex system in Hessenberg
 mode

---
 common/include/Matrices.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/include/Matrices.hpp b/common/include/Matrices.hpp
index e08dea0..25d5235 100644
--- a/common/include/Matrices.hpp
+++ b/common/include/Matrices.hpp
@@ -293,7 +293,10 @@ namespace odes
 	    }
 	  E2R(j,j)+=alpha; E2I(j,j)=beta;
 	}
-      dechc(E2R,E2I,ipi);
+      int info=dechc(E2R,E2I,ipi);
+      if(info!=0)
+	throw OdesException("odes::Matrices::Matrices, decomc (dechc): ",
+			       info);
     }
     inline void solvecomplex(fortranVectorF<n>& Zr,fortranVectorF<n>& Zi,
 			     const fortranArray<n>& Jac)
-- 
2.43.0


From 1317e63eed2673a99a432572214911403e970a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 07/40] fix: householder applies no reflexion to systems of
 size 1

---
 common/include/Hessenberg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 405a190..2d4496e 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -255,6 +255,7 @@ template<int n> void householder(const fortranArray<n>& A,const double tau[],
 				 bool direct)
 {
   Y=X;
+  if(n<3) return; // no reflexion: the matrix already has Hessenberg form.
   int jbeg,jend,jinc;
   if(direct)
     {
-- 
2.43.0


From 8f6ec9fbd7ce7b5cf59b8210e1b1f35358bac900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 08/40] fix: release and allocate the Hessenberg work array the
 way it was allocated

---
 common/include/Matrices.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/Matrices.hpp b/common/include/Matrices.hpp
index 25d5235..06f433d 100644
--- a/common/include/Matrices.hpp
+++ b/common/include/Matrices.hpp
@@ -250,9 +250,9 @@ namespace odes
 	  k=work[0];
 	  if(lwork<k)
 	    {
-	      if(work!=0) delete[] work;
+	      destroyDoubleArray(work);
 	      lwork=k;
-	      work=new double[lwork];
+	      work=allocDoubleArray(lwork);
 	    }
 	  dgehrd_(&nn,&ilo,&ihi,&Jac,&lda,tau,work,&k,&info);
 	  if(info!=0)
-- 
2.43.0


From de0c4d11e56cbf3c1d3f3a5693d27ee22a2c47e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 09/40] fix: Rodas reads the per component tolerances from the
 start of the arrays

---
 Rodas-NG/include/Rodascc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 13f62e4..7fc2bb7 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -232,8 +232,8 @@ namespace odes
 #include "Ivdep.hpp"
 	  for(int i=1;i<=n;i++)
 	    {
-	      rtol(i)=_rtol[i];
-	      atol(i)=_atol[i];
+	      rtol(i)=_rtol[i-1];
+	      atol(i)=_atol[i-1];
 	    }
 	}
     }
-- 
2.43.0


From 868a5fbd572e9772f0330b5ee99f495838644129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 10/40] fix: the ABS macro negates its whole argument (backward
 integration took a wrong step bound)

---
 Radau5-NG/include/Radau5cc.hpp        | 2 +-
 Rock4-NG/include/ToolOMP.hpp          | 2 +-
 Rodas-NG/include/Rodascc.hpp          | 2 +-
 SymplecticRK/include/SymplecticRK.hpp | 2 +-
 common/include/Hessenberg.hpp         | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 22d5e0c..0c202ca 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -14,7 +14,7 @@
 #endif
 #define MAX(x,y) ((x)>(y)?(x):(y))
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 #define SIGN(a) (((a) >= (0.0)) ? (1.) : (-1.))
 namespace odes
 {
diff --git a/Rock4-NG/include/ToolOMP.hpp b/Rock4-NG/include/ToolOMP.hpp
index 55dfd29..576689b 100644
--- a/Rock4-NG/include/ToolOMP.hpp
+++ b/Rock4-NG/include/ToolOMP.hpp
@@ -3,7 +3,7 @@
 #include "Rock4Coeffs.hpp"
 #include "MacrosForCompilers.hpp"
 #include "OdesException.hpp"
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 using namespace std;
 namespace odes {
   ///////////////////////////////////////////////////////////////////////////
diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 7fc2bb7..4a050e5 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -13,7 +13,7 @@
 #endif
 #define MAX(x,y) ((x)>(y)?(x):(y))
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 #define SIGN(a) (((a) >= (0.0)) ? (1.) : (-1.))
 namespace odes
 {
diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index e3400ba..4929ba2 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -6,7 +6,7 @@
 #include "Extrap.hpp"
 #include <iostream>
 #define MAX(x,y) ((x)>(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 using namespace std;
 namespace odes{
 ///////////////////////////////////////////////////////////////////////////
diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 2d4496e..d34bcf6 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -4,7 +4,7 @@
 #include "fortranVector.hpp"
 using namespace odes;
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 /////////////////////////////////////////////////////////////////////////////
 /// All what is necessary to compute with Hessenberg matrices (but not
 /// the reduction of a full matrix to Hessenberg form (see Matrices.hpp).
-- 
2.43.0


From 9a155ea1d23772d5b0c99f529ee6a53364198a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 11/40] fix: Rodas counts every rejected step after the first
 accepted one

---
 Rodas-NG/include/Rodascc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 4a050e5..18adb32 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -463,7 +463,7 @@ namespace odes
 		  reject=true;
 		  last=false;
 		  h=hnew;
-		  if(naccpt>1) ++nrejct;
+		  if(naccpt>=1) ++nrejct;
 		}
 	    }
 	  while(reject);
-- 
2.43.0


From 2d03470b55504248cb7616ea0b4154d56b3ff1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 12/40] fix: Rodas gives up on endless step rejections

---
 Rodas-NG/include/Rodascc.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 18adb32..fb2214f 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -464,6 +464,10 @@ namespace odes
 		  last=false;
 		  h=hnew;
 		  if(naccpt>=1) ++nrejct;
+		  if(nstep>nmax)
+		    throw OdesException("Rodas(): nstep too large:",nstep);
+		  if(0.1e0*ABS(h)<=ABS(x)*uround)
+		    throw OdesException("Rodascc():, h too small",h);
 		}
 	    }
 	  while(reject);
-- 
2.43.0


From e0fbc020e43a9f8eb6a5f450313ed2d391528f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 13/40] fix: Radau5 one-step mode advances the time and counts
 the step

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 0c202ca..7cbceb5 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -589,7 +589,6 @@ namespace odes
 	  double hnew=h/quot;
 	  if(err<1.0)
 	    {
-	      if(onlyOneStep) {Y+=Z3;break;}
 	      //step accepted
 	      if(naccpt==0) firstAcceptedStep=h;
 	      first=false;++naccpt;
@@ -625,6 +624,7 @@ namespace odes
 
 	      doScal(Y);
 	      caljac=false;
+	      if(onlyOneStep) break;
 	      if(last||0.1*ABS(xend-x)<=ABS(x)*uround)
 		{
 		  seth(x,hopt);
-- 
2.43.0


From 1ff07244e7e12d84d46590cc1292fca140765ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 14/40] fix: Radau5 initialises the proposed step when the
 first step is the last one

---
 Radau5-NG/include/Radau5cc.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 7cbceb5..766da63 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -476,7 +476,6 @@ namespace odes
 	  seth(x,xend-x);
 	  last=true;
 	}
-      else
       hopt=h;
       xold=x;
 
-- 
2.43.0


From 252b59c6651aa84fdafb6e7f0bcf454b6e7cf6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 15/40] fix: Radau5 setFacrFacl takes effect, with its
 documented meaning

---
 Radau5-NG/include/Radau5cc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 766da63..0e682c1 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -402,7 +402,7 @@ namespace odes
     //! \param _facr
     //! \param _facl
     //! \note new step h is chose so that _facl<= h/hold<=facr
-    inline void setFacrFacl(double _facr,double _facl){facr=_facr;facl=_facl;}
+    inline void setFacrFacl(double _facr,double _facl){facr=1./_facr;facl=1./_facl;}
     //! perform Gustafsson test? (default yes).
     //! \param val boolean.
     inline void setGustafssonTest(bool val){gustafssonTest=val;}
@@ -456,7 +456,7 @@ namespace odes
       bool redonewton=true; 
       caljac=true;startn=false; first=true;
       reject=false,last=false;
-      cfac=safe*(1+2*nit); facr=1.e+0/8.e+0; facl=5.e+0;
+      cfac=safe*(1+2*nit);
       int reason=0;
       nstep=0; ndec=0;
       //h=_h;
-- 
2.43.0


From 4bbb21681fbc9d387c62bb38fafd9681f7220016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 16/40] fix: Radau5 never uses an iterate that did not converge

---
 Radau5-NG/include/Radau5cc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 0e682c1..e82e8c0 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -542,6 +542,7 @@ namespace odes
 		if(reason==didNotConverge)
 		  {
 		    //h/=2.; 
+		    redonewton=true; reject=true; last=false;
 		    seth(x,h*0.5);
 		    hhfac=0.5;
 		    if(!caljac) 
-- 
2.43.0


From 9b1fd901c7cc9ad7a17b6febac0931878229762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 17/40] fix: Radau5 keeps the result of a Newton iteration that
 converged at the iteration limit

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index e82e8c0..316e3bb 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -225,7 +225,7 @@ namespace odes
 		  leave=true; whyDoWeLeave=converged;
 		}
 	    }
-	  if(newt==nit)
+	  if(newt==nit && !leave)
 	    {
 	      leave=true; whyDoWeLeave=didNotConverge;
 	    }
-- 
2.43.0


From e931ee31a155605efdb0f01e0a83b92dc3cd5b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 18/40] fix: Radau5 gives up on endless Newton failures and
 negligible steps

---
 Radau5-NG/include/Radau5cc.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 316e3bb..2583472 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -496,10 +496,12 @@ namespace odes
       for(;;)
 	{
 	  
-	  if(nstep>nmax)
-	    throw OdesException("Radau5cc() nstep=",nstep,"too large, nmax=",
-				  nmax);
 	  do{//20 in Hairer.
+	    if(nstep>nmax)
+	      throw OdesException("Radau5cc() nstep=",nstep,"too large, nmax=",
+				  nmax);
+	    if(0.1*ABS(h)<=ABS(x)*uround)
+	      throw OdesException("Radau5cc(), h too small",h);
 	    ++nstep;
 	    // starting values for newton iteration:
 	    xph=x+h;
-- 
2.43.0


From 790846c6a0a2c4133e71d73cd25e2332f490c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 19/40] fix: Radau5 counts the function call of the second
 error estimate

---
 Radau5-NG/include/Radau5cc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 2583472..898a3fe 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -267,6 +267,7 @@ namespace odes
 	 {
 	   CONT1.sum(CONT1,y);
 	   F(t,&CONT1,&F1);
+	   ++nfonccalled;
 	   CONT1.sum(F1,F2);
 	   solvereal(CONT1,Jac);
 	   err=0.0;
-- 
2.43.0


From 4807588ae639a502db9e4a99b128e31a2b45040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 20/40] fix: Radau5 forgets the convergence rate of an earlier
 integration

---
 Radau5-NG/include/Radau5cc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 898a3fe..7bb05b6 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -456,6 +456,7 @@ namespace odes
       //-------------------
       bool redonewton=true; 
       caljac=true;startn=false; first=true;
+      faccon=1.;
       reject=false,last=false;
       cfac=safe*(1+2*nit);
       int reason=0;
-- 
2.43.0


From 80821f2e52193f420adbd47327b07591edba6c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 21/40] fix: Rock4: keep the work array pointers consistent
 when the right-hand side throws

---
 Rock4-NG/include/Rock4.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 7351e97..5bd5e44 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -58,7 +58,7 @@ namespace odes {
     //! \note return error estimator value.
      double kernel(double * Restrict &y,double dt)
     {
-      double *g1=temp;
+      double *&g1=temp;
       Fonc& F=*Fp;// told=0.;
       double mz=mp[1],mr=mp[2];
 
@@ -85,7 +85,6 @@ namespace odes {
 	    }
 	}
       if(mdeg>=2) switchAdr(g1,g0);
-      temp=g1;
       funccal+=mdeg-1;
       // result of the recurrence is always in g0.
       //
-- 
2.43.0


From 940cd3ad45691189856c3b21eb8599f3c518bde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 22/40] fix: Rock4: the last step ends exactly at tend (no
 spurious step-too-small failure)

---
 Rock4-NG/include/Rock4.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 5bd5e44..f2b8111 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -230,6 +230,7 @@ namespace odes {
 	      mdego=mdeg;
 	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
 	    }
+	  const bool laststep=h>=ABS(tend-t);
 	  double err=kernel(y,h);
 
 	  ++nsteps;
@@ -248,7 +249,7 @@ namespace odes {
 	    {
 	      //accepted step.
 	      ++nacc; facmax=2.0e0;
-	      t+=h;
+	      t= laststep? tend: t+h;
 	      hlast=h;
 	      if (reject)
 		{
-- 
2.43.0


From 7f09efb83e50c74f3878be097d305b256c86a5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 23/40] fix: Rock4: no integer overflow in the number of stages

---
 Rock4-NG/include/Rock4.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index f2b8111..373387a 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -213,7 +213,9 @@ namespace odes {
 	  if(nrho==0)
 	    eigmax=F.rho();
 	  
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  // (compare before converting: the value may not fit an int)
+	  const double dmdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  mdeg= dmdeg<153.e0? static_cast<int>(dmdeg): 153;
 
 	  ++pass;
 
-- 
2.43.0


From 268c1542de464fb1357fed344900e0e32c664cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 24/40] fix: Rock4: a rejected step is never retried with a
 larger one

---
 Rock4-NG/include/Rock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 373387a..2b0a620 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -283,7 +283,7 @@ namespace odes {
 	      if (told==t) 
 		{
 		  ++nrejloc;
-		  if (nrejloc==10) h=1.0e-5;
+		  if (nrejloc==10) h=min(h,1.0e-5);
 		}
 	      told=t;
 	     
-- 
2.43.0


From 3047a42e6a9a48ba048d4f138dffe07490c7ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 25/40] fix: ToolOMP: the error norm is a reduction (data race
 on ret)

---
 Rock4-NG/include/ToolOMP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/ToolOMP.hpp b/Rock4-NG/include/ToolOMP.hpp
index 576689b..789ffa8 100644
--- a/Rock4-NG/include/ToolOMP.hpp
+++ b/Rock4-NG/include/ToolOMP.hpp
@@ -143,7 +143,7 @@ namespace odes {
       ASSUME_ALIGNED(x3);  ASSUME_ALIGNED(x4); 
       ASSUME_ALIGNED(x5);  ASSUME_ALIGNED(y);
 #ifdef ROCK4_OMP
-#pragma omp parallel for
+#pragma omp parallel for reduction(+:ret)
 #endif       
       for(int i=0;i<size;i++)
 	{
-- 
2.43.0


From 869abc3ab6c14f783241bb28211cffa02aa85474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 26/40] fix: Rock4L: no integer overflow in the number of
 stages

---
 Rock4-L/include/Rock4L.hpp | 756 +++++++++++++++++++------------------
 1 file changed, 380 insertions(+), 376 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index c663f4f..d248ede 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -1,376 +1,380 @@
-#ifndef Rock4__h
-#define Rock4__h
-#include "Rock4Coeffs.hpp"
-#include "MacrosForCompilers.hpp"
-#include "AllocateDestroyVector.hpp"
-#include "OdesException.hpp"
-#include "switchAdr.hpp"
-#include <cmath>
-#include <cstdlib>
-using namespace std;
-namespace odes{
-///////////////////////////////////////////////////////////////////////////
-/// A replacement for A. Abdulle rock4.f code for Rock4 method.
-///  *We treat here linear and affine case* ie RHS must be:
-///        x-> Ax
-///    or 
-///        x-> Ax+ B with B independent of time.
-///
-/// Template arguments:
-///      - Fonc: Object function which defines the problem.
-///      - Affine: true iff we treat the affine case.
-///              
-///  The class Fonc must define the following public methods:
-///      1) contructor:  
-///                Fonc(int n) n: size (number of unknowns).
-///      2) destructor.
-///      3)  double rho()
-///            return spectral radius of A: 
-///      4) int size()        
-///            return n, the size of vectors (see contructor).
-///      5) void operator()(double * in, double * s, 
-///                            double a, double b,double *out)
-///           compute out[]= A*a* in[] +b s[]
-///      6) void operator()(double * in, double * s, 
-///                             double a, double b, double *g,double *out)
-///           compute out[]=A*a*in[]+ b*s[] +g[]
-///      7) void operator()(double * in, double * s,
-///                              double a, double b,double c,double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]
-///      8)  void operator()(double * in, double * s, 
-///                              double a, double b,double c,double *g,
-///                              double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
-///
-///    where in[], s[], g[] and out[] are vectors of size n.        
-//////////////////////////////////////////////////////////////////////////
-  template<class Fonc,bool Affine=false> class Rock4L
-  {
-    Fonc* Fp;
-    const int size;
-    double atol,rtol;//tolerances for time steps adaptation.
-    double uround,told;
-    double t; 
-    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
-    double *BigArray;
-    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
-    Rock4Coeffs Coeffs;
-    double ac[5][4],bc[5],hc[5];
-
-    //! We want to compute polynomial for the 2nd formula in Horner form.
-    //! so we must compute the coefficients in this form.
-    void makeHornerCoeffs()
-    {
-      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
-      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
-	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
-      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
-	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
-      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
-      hc[0]=1.;
-    } 
-    //! make sub arrays.
-    inline void splitBigArray()
-    {
-      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
-    }
-    //! permutate 3 adresses g0,g1,g2.
-    //! \param g0 
-    //! \param g1 
-    //! \param g2
-    inline void permut3(double *&g0,double *&g1,double *&g2)
-    {
-      double *temp=g0;
-      g0=g1; g1=g2;g2=temp;
-    }
-   
-    //! find degree of formula.
-    void mdegre(int& mdeg)
-    {
-      mp[2]=1;
-      //-------- Find the degree.--------      
-      for(int i=1;i<=50;i++)
-	{
-	  if ((Coeffs.ms(i)/mdeg)>=1)
-	    {
-	      mdeg=Coeffs.ms(i);
-	      mp[1]=i;
-	      break;
-	    }
-	  else
-	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
-	}
-    }
-    //! The heart of the computation; perform a dt step, in the linear
-    //! case.
-    //! \param y IN/OUT.
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay
-     void kernel1(double *y,double dt)
-    {
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg+1;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=dt*Coeffs.fpa(mz,1);
-      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
-      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
-      ac[4][3]=dt*Coeffs.fpa(mz,6);
-      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
-      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-
-      //
- 
-      F(g0,g0,hc[4],hc[3],k1);
-      F(k1,g0,1.0,hc[2],temp);
-      F(temp,g0,1.0,hc[1],k1);
-      F(k1,g0,1.0,hc[0],y);
-      //
-      funccal+=4;
-
-    }
-    //! The heart of the computation; perform a dt step, in the affine
-    //! case.
-    //! \param y IN/OUT.
-    //! \param b the constant in time part of the RHS
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay + B, with a constant B.
-    void kernel2(double *y,double *b,double dt)
-    {
-   
-      //g1=temp;
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg+1;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=Coeffs.fpa(mz,1);
-      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
-      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
-      ac[4][3]=Coeffs.fpa(mz,6);
-      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
-      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-      double dt2=dt*dt, dt3= dt2*dt;
-      //
-      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
-
-      // now we have a polynomial of degree 3 to evaluate: 
-      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
-      F(g1,k1,1.0,hc[2]*dt,g2);
-      F(g2,k1,1.0,hc[1],g1);
-      // finish:
-      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
-#include "Ivdep.hpp"
-      for(int i=0;i<size;i++)
-	y[i]=g0[i]+g1[i];
-      
-      funccal+=4;
-
-    }
-
-  public:
-    //! constructor
-    //! \param  F RHS.
-    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
-    {
-      int bk=BLOCK_FACTOR/sizeof(double);
-      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
-      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
-      splitBigArray();
-       // do not allocate Vtemp. 
-      uround=1.e-16;
-    }
-    //! destructor
-    ~Rock4L()
-    {
-      //Suppress(BigArray);
-      destroyDoubleArray(BigArray);
-    }
-    
-    //! number of stages used (we count both methods).
-    inline int NbStages() const {return nstagesmax;}
-    //! number of RHS computed
-    inline int NbRhsComputed() const {return funccal;}
-    //! number of steps performed.
-    inline int NbSteps() const {return nsteps;}
-    //! return a correctly aligned vector, for unknowns.
-    //inline double* alloc_vec() {return Allocate(size);} 
-    //! delete a vector allocated with alloc_vec()
-    //inline void delete_vec(double * v){Suppress(v);}
-    //! number of unknowns.
-    inline int nbUnkn() const {return size;}
-    //! value of "time":
-    inline double Time() const {return t;}
-    
-    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note  we solve dy/dt= Ay.
-    void operator()(double *y,double t0,double tend, double _h)
-    {
-      if(Affine)
-	throw OdesException("Rock4::operator() called as affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  kernel1(y,h);
-	  t+=h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param b RHS.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note we solve dy/dt= Ay+b.
-    void operator()(double *y,double *b, double t0,double tend, double _h)
-    {
-      if(!Affine)
-	throw OdesException("Rock4::operator() called as not affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  kernel2(y,b,h);
-	  t+=h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-  };
-};
-
-#endif
+#ifndef Rock4__h
+#define Rock4__h
+#include "Rock4Coeffs.hpp"
+#include "MacrosForCompilers.hpp"
+#include "AllocateDestroyVector.hpp"
+#include "OdesException.hpp"
+#include "switchAdr.hpp"
+#include <cmath>
+#include <cstdlib>
+using namespace std;
+namespace odes{
+///////////////////////////////////////////////////////////////////////////
+/// A replacement for A. Abdulle rock4.f code for Rock4 method.
+///  *We treat here linear and affine case* ie RHS must be:
+///        x-> Ax
+///    or 
+///        x-> Ax+ B with B independent of time.
+///
+/// Template arguments:
+///      - Fonc: Object function which defines the problem.
+///      - Affine: true iff we treat the affine case.
+///              
+///  The class Fonc must define the following public methods:
+///      1) contructor:  
+///                Fonc(int n) n: size (number of unknowns).
+///      2) destructor.
+///      3)  double rho()
+///            return spectral radius of A: 
+///      4) int size()        
+///            return n, the size of vectors (see contructor).
+///      5) void operator()(double * in, double * s, 
+///                            double a, double b,double *out)
+///           compute out[]= A*a* in[] +b s[]
+///      6) void operator()(double * in, double * s, 
+///                             double a, double b, double *g,double *out)
+///           compute out[]=A*a*in[]+ b*s[] +g[]
+///      7) void operator()(double * in, double * s,
+///                              double a, double b,double c,double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]
+///      8)  void operator()(double * in, double * s, 
+///                              double a, double b,double c,double *g,
+///                              double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
+///
+///    where in[], s[], g[] and out[] are vectors of size n.        
+//////////////////////////////////////////////////////////////////////////
+  template<class Fonc,bool Affine=false> class Rock4L
+  {
+    Fonc* Fp;
+    const int size;
+    double atol,rtol;//tolerances for time steps adaptation.
+    double uround,told;
+    double t; 
+    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
+    double *BigArray;
+    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
+    Rock4Coeffs Coeffs;
+    double ac[5][4],bc[5],hc[5];
+
+    //! We want to compute polynomial for the 2nd formula in Horner form.
+    //! so we must compute the coefficients in this form.
+    void makeHornerCoeffs()
+    {
+      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
+      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
+	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
+      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
+	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
+      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
+      hc[0]=1.;
+    } 
+    //! make sub arrays.
+    inline void splitBigArray()
+    {
+      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
+    }
+    //! permutate 3 adresses g0,g1,g2.
+    //! \param g0 
+    //! \param g1 
+    //! \param g2
+    inline void permut3(double *&g0,double *&g1,double *&g2)
+    {
+      double *temp=g0;
+      g0=g1; g1=g2;g2=temp;
+    }
+   
+    //! find degree of formula.
+    void mdegre(int& mdeg)
+    {
+      mp[2]=1;
+      //-------- Find the degree.--------      
+      for(int i=1;i<=50;i++)
+	{
+	  if ((Coeffs.ms(i)/mdeg)>=1)
+	    {
+	      mdeg=Coeffs.ms(i);
+	      mp[1]=i;
+	      break;
+	    }
+	  else
+	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
+	}
+    }
+    //! The heart of the computation; perform a dt step, in the linear
+    //! case.
+    //! \param y IN/OUT.
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay
+     void kernel1(double *y,double dt)
+    {
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg+1;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=dt*Coeffs.fpa(mz,1);
+      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
+      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
+      ac[4][3]=dt*Coeffs.fpa(mz,6);
+      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
+      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+
+      //
+ 
+      F(g0,g0,hc[4],hc[3],k1);
+      F(k1,g0,1.0,hc[2],temp);
+      F(temp,g0,1.0,hc[1],k1);
+      F(k1,g0,1.0,hc[0],y);
+      //
+      funccal+=4;
+
+    }
+    //! The heart of the computation; perform a dt step, in the affine
+    //! case.
+    //! \param y IN/OUT.
+    //! \param b the constant in time part of the RHS
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay + B, with a constant B.
+    void kernel2(double *y,double *b,double dt)
+    {
+   
+      //g1=temp;
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg+1;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=Coeffs.fpa(mz,1);
+      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
+      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
+      ac[4][3]=Coeffs.fpa(mz,6);
+      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
+      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+      double dt2=dt*dt, dt3= dt2*dt;
+      //
+      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
+
+      // now we have a polynomial of degree 3 to evaluate: 
+      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
+      F(g1,k1,1.0,hc[2]*dt,g2);
+      F(g2,k1,1.0,hc[1],g1);
+      // finish:
+      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
+#include "Ivdep.hpp"
+      for(int i=0;i<size;i++)
+	y[i]=g0[i]+g1[i];
+      
+      funccal+=4;
+
+    }
+
+  public:
+    //! constructor
+    //! \param  F RHS.
+    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
+    {
+      int bk=BLOCK_FACTOR/sizeof(double);
+      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
+      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
+      splitBigArray();
+       // do not allocate Vtemp. 
+      uround=1.e-16;
+    }
+    //! destructor
+    ~Rock4L()
+    {
+      //Suppress(BigArray);
+      destroyDoubleArray(BigArray);
+    }
+    
+    //! number of stages used (we count both methods).
+    inline int NbStages() const {return nstagesmax;}
+    //! number of RHS computed
+    inline int NbRhsComputed() const {return funccal;}
+    //! number of steps performed.
+    inline int NbSteps() const {return nsteps;}
+    //! return a correctly aligned vector, for unknowns.
+    //inline double* alloc_vec() {return Allocate(size);} 
+    //! delete a vector allocated with alloc_vec()
+    //inline void delete_vec(double * v){Suppress(v);}
+    //! number of unknowns.
+    inline int nbUnkn() const {return size;}
+    //! value of "time":
+    inline double Time() const {return t;}
+    
+    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note  we solve dy/dt= Ay.
+    void operator()(double *y,double t0,double tend, double _h)
+    {
+      if(Affine)
+	throw OdesException("Rock4::operator() called as affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  // (compare before converting: the value may not fit an int)
+	  const double dmdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  mdeg= dmdeg<153.e0? static_cast<int>(dmdeg): 153;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",dmdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  kernel1(y,h);
+	  t+=h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param b RHS.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note we solve dy/dt= Ay+b.
+    void operator()(double *y,double *b, double t0,double tend, double _h)
+    {
+      if(!Affine)
+	throw OdesException("Rock4::operator() called as not affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  // (compare before converting: the value may not fit an int)
+	  const double dmdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  mdeg= dmdeg<153.e0? static_cast<int>(dmdeg): 153;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",dmdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  kernel2(y,b,h);
+	  t+=h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+  };
+};
+
+#endif
-- 
2.43.0


From bc2576edad34491d88aa064206afcafbedac3627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 27/40] fix: Rock4L: the last step ends exactly at tend (no
 spurious step-too-small failure)

---
 Rock4-L/include/Rock4L.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index d248ede..2670649 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -318,8 +318,9 @@ namespace odes{
 	      mdego=mdeg;
 	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
 	    }
+	  const bool laststep=h>=abs(tend-t);
 	  kernel1(y,h);
-	  t+=h;
+	  t= laststep? tend: t+h;
 	  if(t+h>tend) h=tend-t;
 	}
     }
@@ -369,8 +370,9 @@ namespace odes{
 	      mdego=mdeg;
 	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
 	    }
+	  const bool laststep=h>=abs(tend-t);
 	  kernel2(y,b,h);
-	  t+=h;
+	  t= laststep? tend: t+h;
 	  if(t+h>tend) h=tend-t;
 	}
     }
-- 
2.43.0


From 15a1ff438968e952a409e5c911be26753d825e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 28/40] fix: Rock4L: aligned work arrays for every size (the
 padding was computed wrongly and not used)

---
 Rock4-L/include/Rock4L.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index 2670649..15281f6 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -72,7 +72,7 @@ namespace odes{
     //! make sub arrays.
     inline void splitBigArray()
     {
-      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
+      k1=BigArray; g0=k1+sizesplit; g1=g0+sizesplit; g2=g1+sizesplit;
     }
     //! permutate 3 adresses g0,g1,g2.
     //! \param g0 
@@ -245,8 +245,8 @@ namespace odes{
     Rock4L(Fonc& F): Fp(&F),size(Fp->size())
     {
       int bk=BLOCK_FACTOR/sizeof(double);
-      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
-      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
+      sizesplit=bk*((size+bk-1)/bk);
+      BigArray=allocDoubleArray(4*sizesplit);
       splitBigArray();
        // do not allocate Vtemp. 
       uround=1.e-16;
-- 
2.43.0


From 704f0cd09d0d6ca31c29aff1e3bdff8aa5f1ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:56 +0000
Subject: [PATCH 29/40] fix: Rock4L: count the right-hand side evaluations of a
 step exactly

---
 Rock4-L/include/Rock4L.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index 15281f6..4b32bcd 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -138,7 +138,7 @@ namespace odes{
 	}
       switchAdr(g1,g0);
       temp=g1;
-      funccal+=mdeg+1;
+      funccal+=mdeg;
       ++nsteps;
       //
       // result of the recurrence is always in g0.
@@ -205,7 +205,7 @@ namespace odes{
 	}
       switchAdr(g1,g0);
       temp=g1;
-      funccal+=mdeg+1;
+      funccal+=mdeg;
       ++nsteps;
       //
       // result of the recurrence is always in g0.
-- 
2.43.0


From 6dbcb4c4ff3756ca8ef16c0f40b3e4e8ee692db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:28 +0000
Subject: [PATCH 30/40] fix: CrN: the final combination advances the whole step
 (D = b A^-1 = 2)

---
 SDIRKL/include/CrN.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SDIRKL/include/CrN.hpp b/SDIRKL/include/CrN.hpp
index 531d5c7..c0603bc 100644
--- a/SDIRKL/include/CrN.hpp
+++ b/SDIRKL/include/CrN.hpp
@@ -15,7 +15,7 @@ struct CrN
   CrN()
   {
     A[0][0]=0.5;
-    D[0]=1.;
+    D[0]=2.;
     S[0]=0.5;
     name="CrN";
   }
-- 
2.43.0


From 9c5fc883fc422c043b744cbd2b5f7ada5a32f4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 31/40] fix: Extrap: index stages by the number of unknowns
 (out of bounds, wrong components)

---
 SymplecticRK/include/Extrap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SymplecticRK/include/Extrap.hpp b/SymplecticRK/include/Extrap.hpp
index ce8baa2..923107c 100644
--- a/SymplecticRK/include/Extrap.hpp
+++ b/SymplecticRK/include/Extrap.hpp
@@ -42,12 +42,12 @@ namespace odes{
       for(int i=0;i<nsteps;i++)
 	{
 	  for(int l=0;l<n;l++)
-	    Y[nsteps*i+l]=u[l];
+	    Y[n*i+l]=u[l];
 	  for(int j=0;j<nsteps;j++)
 	    {
 	      double beta=q[nsteps*i+j];
 	      for(int l=0;l<n;l++)
-		Y[nsteps*i+l]+=beta*F[nsteps*j+l];
+		Y[n*i+l]+=beta*F[n*j+l];
 	    }
 	}
 	    
-- 
2.43.0


From c3e0b821f269f4b33cee4afca3fd36e7ba97747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 32/40] fix: symplectic methods keep the precision of long
 double (step, weights, prediction)

---
 SymplecticRK/include/Extrap.hpp         | 4 ++--
 SymplecticRK/include/GaussianMethod.hpp | 2 +-
 SymplecticRK/include/SymplecticRK.hpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/SymplecticRK/include/Extrap.hpp b/SymplecticRK/include/Extrap.hpp
index 923107c..dcd3b15 100644
--- a/SymplecticRK/include/Extrap.hpp
+++ b/SymplecticRK/include/Extrap.hpp
@@ -25,7 +25,7 @@ namespace odes{
     ~Extrap(){}
     //! multiply coefficients by h.
     //! \param h
-    void change_h(double h)
+    void change_h(Double h)
     {
        // copy coefficients in q[].
       extrapcoeffs<nsteps,Double>(q);
@@ -45,7 +45,7 @@ namespace odes{
 	    Y[n*i+l]=u[l];
 	  for(int j=0;j<nsteps;j++)
 	    {
-	      double beta=q[nsteps*i+j];
+	      Double beta=q[nsteps*i+j];
 	      for(int l=0;l<n;l++)
 		Y[n*i+l]+=beta*F[n*j+l];
 	    }
diff --git a/SymplecticRK/include/GaussianMethod.hpp b/SymplecticRK/include/GaussianMethod.hpp
index 64afba4..4fc0334 100644
--- a/SymplecticRK/include/GaussianMethod.hpp
+++ b/SymplecticRK/include/GaussianMethod.hpp
@@ -76,7 +76,7 @@ namespace odes{
     }
     //! multiply coefficients by h.
     //! \param h
-    void change_h(double h)
+    void change_h(Double h)
     {
       //init();
       icoeffs<nsteps,long double>(a,b);
diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index 4929ba2..454d95e 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -127,7 +127,7 @@ public:
 	
 	for(int i=0;i<nsteps;i++)
 	  {
-	    double bi=G.b[i];
+	    Double bi=G.b[i];
 #include "Ivdep.hpp"
 	    for(int j=0;j<n;j++)
 	      delta[j]+=bi*Y1[i*n+j];
-- 
2.43.0


From 1d6b27ccc4d3f5e2b8872e736c96ec0e3e25813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 33/40] fix: Gauss coefficients in the full precision of their
 type (they had 12 digits, long double was read as double)

---
 SymplecticRK/sage/comp1.sage           |  15 +-
 SymplecticRK/sage/generated_coeffs.hpp | 568 ++++++++++++-------------
 2 files changed, 292 insertions(+), 291 deletions(-)

diff --git a/SymplecticRK/sage/comp1.sage b/SymplecticRK/sage/comp1.sage
index e42bd70..649116c 100644
--- a/SymplecticRK/sage/comp1.sage
+++ b/SymplecticRK/sage/comp1.sage
@@ -27,7 +27,7 @@ def Cooper(s,A,B):
     return sum([abs(B[i][0]*A[i,j]+B[j][0]*A[j,i]-B[i][0]*B[j][0]) \
                 for i in range(s) for j in range(s)])
  
-def lcoeffs(s,Rout,Rpivot):
+def lcoeffs(s,Rout,Rpivot,nm):
     p=x^s*(x-1)^s
     l=p.derivative(x,s) #the polynomial.
     theRoots=[Rpivot((l.roots()[i][0]).real()) for i in range(0,s)]
@@ -49,17 +49,18 @@ def lcoeffs(s,Rout,Rpivot):
     #print AA.parent(),BB.parent()
     #
     print "Cooper,Rout = ",Cooper(s,AA,BB)
-    la="initializer_list<double> la={"
+    suffix="L" if nm=="long double" else ""
+    la="initializer_list<"+nm+"> la={"
     for i in range(0,s):
         for j in range(0,s):
-            la+=str(Rout(A[i,j]))+","
+            la+=str(Rout(A[i,j]))+suffix+","
         la+="\n"
     la=la[:-2]+"};\n"
 
 
-    lb="initializer_list<double> lb={"
+    lb="initializer_list<"+nm+"> lb={"
     for i in range(0,s):
-        lb+=str(B[i][0])+","
+        lb+=str(B[i][0])+suffix+","
     lb=lb[:-1]+"};\n"
     d={}
     d['la']=la
@@ -69,7 +70,7 @@ def lcoeffs(s,Rout,Rpivot):
 # "main" program starts here.
 ######################################################################
 
-rngs=[(RDF,"double"),(RealField(112),"long double")]
+rngs=[(RealField(112),"double"),(RealField(112),"long double")]
       
 cc="copy(la.begin(),la.end(),a);\ncopy(lb.begin(),lb.end(),b);\n}\n"
 
@@ -82,7 +83,7 @@ for rng in rngs:
         a="template<> void icoeffs<"+str(i)+","+nm+">("+nm+"* a," \
             +nm+"* b)\n{\n"
         print "\n",nm,i
-        ll=lcoeffs(i,Rout,Rpivot)
+        ll=lcoeffs(i,Rout,Rpivot,nm)
         a+=ll["la"]+"\n"+ll["lb"]+"\n"
         #
         fout.write(a)
diff --git a/SymplecticRK/sage/generated_coeffs.hpp b/SymplecticRK/sage/generated_coeffs.hpp
index be5e700..08e7c64 100644
--- a/SymplecticRK/sage/generated_coeffs.hpp
+++ b/SymplecticRK/sage/generated_coeffs.hpp
@@ -1,275 +1,5 @@
 template<> void icoeffs<2,double>(double* a,double* b)
 {
-initializer_list<double> la={0.25,-0.0386751345948,
-0.538675134595,0.25};
-
-initializer_list<double> lb={0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000,0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<3,double>(double* a,double* b)
-{
-initializer_list<double> la={0.138888888889,-0.0359766675249,0.00978944401531,
-0.300263194981,0.222222222222,-0.0224854172031,
-0.267988333762,0.480421111969,0.138888888889};
-
-initializer_list<double> lb={0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778,0.4444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444,0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<4,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0869637112844,-0.026604180085,0.0126274626894,-0.0035551496858,
-0.1881181175,0.163036288716,-0.0278804286025,0.00673550059454,
-0.167191921974,0.353953006034,0.163036288716,-0.0141906949311,
-0.177482572255,0.313445114742,0.352676757516,0.0869637112844};
-
-initializer_list<double> lb={0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719588,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719589,0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<5,double>(double* a,double* b)
-{
-initializer_list<double> la={0.059231721264,-0.0195703643591,0.0112544008186,0.00158811296787,-0.00559379366081,
-0.12815100567,0.119657167625,-0.0245921146196,-0.00276899439877,0.0103182806707,
-0.113776288004,0.260004651681,0.142222222222,0.00468715452387,-0.020690316431,
-0.11687532956,0.24490812891,0.273190043626,0.059231721264,0.258884699609,
-0.121232436927,0.228996054579,0.309036559064,-0.00968756314195,0.119657167625};
-
-initializer_list<double> lb={0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290784,0.2844444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444446,0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290788};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<6,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0428311230948,-0.0147637259972,0.00932505070648,-0.00566885804948,0.0028544333151,-0.000812780171265,
-0.0926734914304,0.090190393262,-0.0203001022932,0.0103631562402,-0.00488719292804,0.00135556105549,
-0.0822479226128,0.196032162333,0.116978483643,-0.0204825277457,0.00798999189966,-0.00207562578487,
-0.0877378719745,0.172390794624,0.254439495032,0.116978483643,-0.0156513758092,0.00341432357674,
-0.0843066851341,0.185267979452,0.223593811046,0.25425706958,0.090190393262,-0.00701124524079,
-0.0864750263608,0.177526353209,0.239625825336,0.22463191658,0.195144512521,0.0428311230948};
-
-initializer_list<double> lb={0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461046,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213883,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939998,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939993,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213892,0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461044};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<7,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0323712415422,-0.0114510172832,0.00763320387242,-0.00513373356323,0.00317505877369,-0.00160681903705,0.000458109523749,
-0.0700435413787,0.0699263478723,-0.0165900065788,0.00934962278344,-0.0053970919319,0.00264584386673,-0.000743850190172,
-0.0621539357873,0.152005522058,0.0954575126263,-0.0183752442155,0.00871256259848,-0.00395358015881,0.00107671561563,
-0.0663329286177,0.133595769224,0.207701880766,0.104489795918,-0.0167868555134,0.00625692652076,-0.00159044553325,
-0.0636657674688,0.143806275903,0.182202462654,0.227354836052,0.0954575126263,-0.0121528263132,0.00258854729708,
-0.0654863332746,0.137206851878,0.196312117184,0.199629969053,0.207505031831,0.0699263478723,-0.00530105829429,
-0.0642843735607,0.141459514782,0.187739966479,0.2141133254,0.18328182138,0.151303713028,0.0323712415422};
-
-initializer_list<double> lb={0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590650,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132896,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048930,0.2089795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918361,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048914,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132877,0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590471};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<8,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0253071340726,-0.00910594330597,0.00628083114703,-0.00448301561305,0.00307849136833,-0.00191767525464,0.000972757664059,-0.000277508327117,
-0.0547593217676,0.0555952586133,-0.0136397962358,0.00814970885836,-0.00521535208915,0.00313975298546,-0.00156493491095,0.000442802304342,
-0.0485875359989,0.120859524997,0.0784266614695,-0.0159751033619,0.00837173272023,-0.0046434658621,0.00222571477528,-0.000618805695251,
-0.0518655209706,0.106193490148,0.170671134275,0.0906709458446,-0.016021041321,0.00724120656122,-0.00319781431036,0.000859236584265,
-0.0497550315609,0.114388331537,0.149612116378,0.19736293301,0.0906709458446,-0.0138178113356,0.00499702707834,-0.00125125282539,
-0.0512330738404,0.108964802451,0.161496788801,0.172970158969,0.197316995051,0.0784266614695,-0.00966900777049,0.00202673214628,
-0.0501714658408,0.112755452138,0.153713569953,0.186557243778,0.173192182831,0.170493119175,0.0555952586133,-0.00414505362237,
-0.0508917764723,0.110217759563,0.158770998194,0.178263400321,0.185824907302,0.150572491792,0.120296460533,0.0253071340726};
-
-initializer_list<double> lb={0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923686,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244513,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271998,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781091084,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781090983,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271946,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244531,0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923785};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<9,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0203185970904,-0.00739786856615,0.0052220035921,-0.00387345129174,0.00283136945007,0.00122660978881,-0.000622964091649,0.000177778462745,-0.00196219418839,
-0.0439655272265,0.0451620401737,-0.0113354640123,0.00703476680173,-0.00478827613102,-0.00196440573995,0.000987172103666,-0.000280274237641,0.00320336015198,
-0.0390086533963,0.0981815119598,0.0651526741007,-0.0137708339866,0.00766417562464,0.00277082889276,-0.00136167198307,0.000382532112918,-0.0047135864678,
-0.0416450870273,0.0862554727725,0.141795216041,0.07808676926,-0.0146189578759,-0.00393283991504,0.00185268620082,-0.000510573474929,0.00730042826218,
-0.0399403728698,0.0929433722727,0.124257110411,0.170000445255,0.0825598387503,0.00604823779069,-0.00261929192529,0.000696821310952,-0.0138269067353,
-0.0402546620679,0.0916857523305,0.127534519309,0.160887124988,0.157455501876,0.0651526741007,-0.00785743161242,0.0016285407845,0.169944372507,
-0.0409174684184,0.0893369082438,0.132269753941,0.152970178368,0.169907953632,0.141640812214,0.0451620401737,-0.00332833304574,0.149138771718,
-0.040459415718,0.0909470444391,0.129078738413,0.158135732708,0.162288308051,0.125083344609,0.0977219489136,0.0203185970904,0.160046989812,
-0.0411477676557,0.0884713941466,0.134238188117,0.148873110258,0.179738635377,-0.0114898678397,0.00406860757492,-0.00100789284654,0.07808676926};
-
-initializer_list<double> lb={0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958263,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353767,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188599,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754460237,0.1651196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441912,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188832,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353150,0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958472,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754459123};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<10,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0166678360772,-0.00612068029234,0.00439200373029,-0.00334535050883,0.00254756897028,-0.00188262038694,0.0013108146277,-0.000820986353138,0.000417243835668,-0.000119093958462,
-0.0360661525782,0.0373628372876,-0.00953137359189,0.00607228446174,-0.00430404581296,0.00306851861087,-0.00209411395745,0.0012962496555,-0.000654328115142,0.000186135539,
-0.0319991179775,0.0812275701119,0.054771590629,-0.0118776128915,0.00687814639771,-0.00450274329686,0.00294087333141,-0.00177613374657,0.000884246091931,-0.00024983875397,
-0.0341639921791,0.0713553690746,0.119207290549,0.0673166798275,-0.0130965195472,0.00694886598384,-0.00414845352723,0.00239281424177,-0.00116229795133,0.00032456210553,
-0.0327609312913,0.0769022997036,0.104444079563,0.14656624555,0.0738810561787,-0.0131122091696,0.00633145505482,-0.00333810079768,0.00155179916885,-0.000424726034358,
-0.0337603981887,0.0731738754064,0.112881282056,0.1283019046,0.160874321527,0.0738810561787,-0.0119328858954,0.0050991016949,-0.00217662512836,0.00057474086306,
-0.0330111100488,0.0758879725266,0.107150367016,0.138781813182,0.140813246374,0.160858631905,0.0673166798275,-0.00966410929077,0.00337030550065,-0.000828320024765,
-0.0335855109083,0.0738414284834,0.111319315005,0.131692486324,0.152264855654,0.14088396596,0.146510972547,0.054771590629,-0.00650189553657,0.00133655417683,
-0.0331495366153,0.0753800026904,0.108246931602,0.136727473612,0.144693593747,0.15206615817,0.128561075193,0.11907455485,0.0373628372876,-0.00273048042385,
-0.0334547661128,0.0743084307396,0.110364167611,0.133322545027,0.149644732744,0.145214543387,0.137978710164,0.105151177528,0.0808463548676,0.0166678360772};
-
-initializer_list<double> lb={0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689192214,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213795469,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104743126,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104384169,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500566581,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500571159,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104387458,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104745261,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213757273,0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689198219};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<11,double>(double* a,double* b)
-{
-initializer_list<double> la={0.013917141779,-0.00514325562983,0.00373560374914,-0.00290037905138,0.00227274215265,-0.00175240116264,0.00130248911732,-0.000909279657712,0.000570136062283,-0.000289875324978,8.27488930846e-05,
-0.0301142391948,0.0313950923662,-0.00810562697908,0.00526282127354,-0.00383743668169,0.00285354676448,-0.00207783291715,0.00143267781288,-0.000891466711988,0.000451184930916,-0.000128498936997,
-0.0267179838503,0.0682542809172,0.0465725527319,-0.0102895248153,0.00612667324767,-0.00418053753705,0.0029106679541,-0.00195573987509,0.00119821656507,-0.000600947942995,0.000170372117196,
-0.0285266689062,0.0599560307356,0.101365041154,0.058298441148,-0.0116536925867,0.0064383812978,-0.00409164865278,0.00262061890572,-0.00156237108007,0.000771530960015,-0.00021706539084,
-0.0273528599994,0.0646238924303,0.0888021849344,0.126937527092,0.0657011361276,-0.0121240615804,0.00621926257425,-0.00363063338386,0.00206324037555,-0.000992886275646,0.000275899729895,
-0.0281917210619,0.0614771890632,0.0959986109029,0.111095774316,0.143076752307,0.0682312716945,-0.0116744800519,0.00550110797963,-0.00285350543903,0.00131299566925,-0.00035743750378,
-0.0275583838282,0.0637830710081,0.0910818650883,0.12022751568,0.125183009681,0.148586604969,0.0657011361276,-0.0103406447965,0.00434292052948,-0.0018337076978,0.000481423558707,
-0.0280513489489,0.0620186537724,0.0947074765439,0.11397626339,0.135493920908,0.130024162091,0.143055964842,0.058298441148,-0.0082199356897,0.00283415399685,-0.000692385348154,
-0.0276639114409,0.0633911326754,0.0919468888988,0.118552622171,0.128491604301,0.140643080926,0.125275599007,0.126886407111,0.0465725527319,-0.0054640961847,0.00111629970782,
-0.0279627824951,0.0623389998015,0.0940365721759,0.115164204483,0.133480105172,0.133608996624,0.135239708937,0.111334061022,0.101250732443,0.0313950923662,-0.00227995563674,
-0.027751534665,0.0630800600574,0.0925749694016,0.117506161954,0.130099783138,0.138214944552,0.129129530102,0.119497261347,0.0894095017147,0.0679334403623,0.013917141779};
-
-initializer_list<double> lb={0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838649929,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402346001,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914408754,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325724799,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276299487,0.1364625433889503153572417641681710945780209849473918737988002057266126530195794265058334322403586472850542114611378680642749906819170888434957699026963096227165491234755304019373283442547511811581075650339719603788867858131927395996660065924135188204452273716342980412244481508550772620036689300758564834854,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276297309,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325736902,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914500390,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402413194,0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838632041};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<12,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0117938340966,-0.00437990215768,0.00321056964126,-0.00252868076292,0.00202324519895,0.00124774475193,-0.00093049983663,0.000650624788775,-0.000408237882558,0.00020761510848,-5.92710487057e-05,-0.00160735902089,
-0.0255198232326,0.0267348314988,-0.00696570366256,0.00458737722346,-0.00341487831326,-0.00198873604147,0.00146425936526,-0.00101552961889,0.000633880729667,-0.000321341337252,9.15875660364e-05,0.00261580117231,
-0.0226415082465,0.0581230577547,0.0400195821358,-0.00896632804601,0.00544880489817,0.00278156916562,-0.00199435710193,0.00136062625077,-0.000840553839985,0.000423460056141,-0.00012030834911,-0.00382839826778,
-0.0241748261227,0.0510550484294,0.0871038538724,0.0507918566808,-0.0103577470217,-0.00390204370621,0.0026638869907,-0.00176593366081,0.00107205559232,-0.000534534766346,0.000151074627301,0.00588867969619,
-0.0231788873634,0.0550336735249,0.0763035605835,0.110596236161,0.0583731341346,0.00591690882966,-0.00367597498519,0.00231791162581,-0.0013672957437,0.000670629185517,-0.000188000196715,-0.0110754199818,
-0.0233514110135,0.0543232717216,0.0782519909929,0.104765642235,0.11120113308,0.0622867614534,-0.0103795246551,0.00480193492467,-0.00245976665589,0.00112275870417,-0.000304349193693,0.135655440636,
-0.02377566839,0.0527990338121,0.0814064600154,0.0992658017357,0.120422243254,0.135648942888,0.0583731341346,-0.00901252279942,0.00373560368819,-0.00156401052723,0.000408780829862,0.118656614077,
-0.023436593566,0.054004197764,0.0789671086794,0.103349647022,0.114082381278,0.118684843211,0.127104015291,0.0507918566808,-0.00706468960073,0.00241461456827,-0.000587157929441,0.128475566613,
-0.0237079765424,0.0530462029415,0.0808797181117,0.100223087111,0.118740625371,0.128401921174,0.111297463371,0.110550041408,0.0400195821358,-0.00465339475702,0.000946159946801,0.121791953741,
-0.0234960806272,0.0537910043349,0.079405283542,0.10259924298,0.115282008904,0.121957721734,0.120161146582,0.0969963361381,0.0870048679342,0.0267348314988,-0.00193215503937,0.126562258948,
-0.023646939242,0.0532620478892,0.0804474021542,0.100933088573,0.117676768106,0.126180881928,0.11472302307,0.104112394124,0.0768285946304,0.0578495651553,0.0117938340966,0.123325778155,
-0.0238920173869,0.0523469042935,0.0824989309276,0.0967817784369,0.127125792924,-0.0110819177291,0.00554513518951,-0.00318192887322,0.00178717327876,-0.000853608723971,0.000236257179789,0.0622867614534};
-
-initializer_list<double> lb={0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952049363,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933437884,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485193300,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511860996273,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579509954,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622278147,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579580542,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511861010094,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485555961,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933242592,0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952155014,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622334800};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<13,double>(double* a,double* b)
-{
-initializer_list<double> la={0.0101210011913,-0.00377307158533,0.00278561575606,-0.00221827038405,0.00180306469115,-0.00146428618398,0.00117219434523,-0.000913582925477,0.000682707775015,-0.000477846825328,0.000299962625259,-0.000152576299212,4.35604600184e-05,
-0.0219001283175,0.0230303749594,-0.00604331982545,0.00402367675567,-0.00304249472623,0.00238203498777,-0.00186724640081,0.00143647464828,-0.00106442244601,0.000740852231417,-0.000463345539788,0.000235139088197,-6.70516615042e-05,
-0.0194299477196,0.0500695755433,0.0347183775549,-0.00786303206731,0.00485274615855,-0.00348400333661,0.00260906242968,-0.00195372076841,0.00142329508753,-0.000979733532988,0.00060835505903,-0.000307359452503,8.74442385103e-05,
-0.0207461084445,0.0439800566806,0.0755663734122,0.0445364951905,-0.0092209168426,0.00535465088569,-0.00365522679985,0.00260442900235,-0.00184200989476,0.00124460812211,-0.000763750235757,0.000383103892798,-0.000108591577935,
-0.0198907528983,0.0474094387268,0.0661938972977,0.0969774293977,0.0519540118842,-0.0100633070333,0.00553442491475,-0.00358522008286,0.00240894627536,-0.00157902463821,0.000951119931435,-0.000471841291131,0.000132996200941,
-0.0205039757595,0.0450910064519,0.0715749421922,0.0848574338709,0.113150057093,0.0565707950657,-0.0103514560922,0.00539400389969,-0.00329262769908,0.0020503890674,-0.00119902884865,0.000584799095209,-0.000163447833222,
-0.0200379395811,0.0468004290851,0.0678786934545,0.0918730747241,0.0989622717612,0.123214025135,0.0581378883077,-0.0100724350036,0.00494575200722,-0.00280008434311,0.0015580616554,-0.000739679166273,0.000204062801555,
-0.0204054502159,0.0454759508237,0.0706357839585,0.0870226013136,0.107200651468,0.107747586232,0.126627232708,0.0565707950657,-0.00924203332466,0.00421555651003,-0.00213818708227,0.000969743466943,-0.000261973376815,
-0.0201090061817,0.04653259121,0.0684856351785,0.0906520150192,0.101499077493,0.116726810214,0.110741351701,0.123204897165,0.0519540118842,-0.00790443901671,0.00324285781214,-0.00134868880796,0.000351249484407,
-0.0203505939606,0.0456776460261,0.0702005053457,0.0878283822589,0.105750033663,0.110537161129,0.119931003415,0.107786939246,0.113128940611,0.0445364951905,-0.00612961830229,0.00208069323826,-0.000504106061862,
-0.0201545581441,0.0463681093714,0.0688284000509,0.090052723914,0.102484728681,0.1150953109,0.113666714186,0.116625593468,0.0990552776099,0.0969360224483,0.0347183775549,-0.0040088256244,0.000812054663012,
-0.0203090540442,0.0458256108307,0.0699001006497,0.0883321381496,0.104972446214,0.111705115483,0.118143023016,0.110759555144,0.106950518495,0.0850493136253,0.0754800749353,0.0230303749594,-0.00165812593487,
-0.0201984419226,0.0462133262181,0.0691367924846,0.0895508372063,0.103225315993,0.114055173057,0.11510358227,0.114605876315,0.102104959077,0.091291260765,0.0666511393538,0.0498338215042,0.0101210011913};
-
-initializer_list<double> lb={0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123803064,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309061141179,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547440614369,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706180743704,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196847519,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765327175824,0.1162757766154369550972947576344179740783137386533989930593327196723800120403517006913610310213706817103420500023896627293230689834086437483040879644276247672851069454466057862661259264655868052471449074845678242281638885035488432091828695225298621902018505415108811712208315604919001522398125794729191249933,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765326548185,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196999882,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706179183318,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547443278613,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309060101292,0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123836934};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<14,double>(double* a,double* b)
-{
-initializer_list<double> la={0.00877986508294,-0.00328311623043,0.00243769977191,-0.00195809929678,0.00161116775848,-0.0013305215627,0.00108963888466,-0.00087630200574,0.00068469369104,-0.000512348412843,0.000358848231298,-0.000225331048393,0.000114628208601,-3.27274204462e-05,
-0.0189981535902,0.0200395217899,-0.00528828692878,0.00355141173897,-0.00271822648689,0.00216386043522,-0.00173506996416,0.00137711257618,-0.00106673647746,0.000793568026139,-0.000553593219336,0.00034668128127,-0.000176059960672,5.02217676033e-05,
-0.016855223028,0.0435673907696,0.030379642672,-0.00693923175519,0.0043344047055,-0.00316351532296,0.00242277289054,-0.00187121355052,0.00142453006384,-0.00104760430312,0.000725153252626,-0.000451771845981,0.000228683634142,-6.51217733285e-05,
-0.0179971729466,0.0382681743916,0.0661233345537,0.0393007917895,-0.00823373536491,0.00485948742726,-0.00339128378072,0.00249119959913,-0.00184021037875,0.00132745819948,-0.000907277121182,0.000560545874372,-0.000282277859466,8.01673175676e-05,
-0.0172547617984,0.0412533979918,0.0579204623739,0.0855778714769,0.0463845993695,-0.00912812000307,0.00512982390659,-0.00342399508689,0.0024010077122,-0.00167859385926,0.00112473016941,-0.000686129552117,0.000342844909038,-9.69793854289e-05,
-0.0177874472666,0.0392337598959,0.0626327197422,0.0748787154812,0.101022753501,0.0512996159303,-0.00958636975953,0.00514289425654,-0.00327298200286,0.00217096714652,-0.00140979076807,0.000843606984772,-0.000416706606796,0.000117184468567,
-0.0173819598205,0.040725133888,0.059391606126,0.0810781747136,0.0883477443626,0.11173735847,0.0538159633658,-0.00958944502747,0.00490242083631,-0.00295118084701,0.00181927648653,-0.0010563185247,0.000512797239918,-0.000142965263485,
-0.0177026954294,0.03956624634,0.0618156038686,0.0767823070926,0.095720379586,0.0976968110243,0.117221371759,0.0538159633658,-0.00913812660915,0.00442145437638,-0.00247659113448,0.00136767921796,-0.000646090308141,0.000177770345416,
-0.0174425456973,0.0404957501867,0.0599156783592,0.0800113743472,0.0905982315925,0.105872213864,0.102489032475,0.117218296491,0.0512996159303,-0.00825355476177,0.00372286809792,-0.00187343439821,0.000845283684014,-0.000227717100774,
-0.0176567095513,0.0397361986708,0.0614454148961,0.0774768534097,0.0944477925982,0.100198224148,0.111055921818,0.102502102825,0.111727351864,0.0463845993695,-0.00697628789782,0.0028388229701,-0.00117435441191,0.000304968367469,
-0.0174795628483,0.0403613214393,0.0601987394696,0.0795088607003,0.0914417405395,0.104439442239,0.105140727132,0.111023210512,0.0977397444334,0.101002934104,0.0393007917895,-0.00536404920974,0.00181086918832,-0.000437442780714,
-0.0176248519392,0.0398503599457,0.0612110571899,0.0778764303265,0.0938168030421,0.101174701797,0.109503140282,0.105209153841,0.105762747184,0.0884347940335,0.0855408153343,0.030379642672,-0.00348834718976,0.000704507137926,
-0.0175095083983,0.0402551035406,0.0604126040627,0.0791551767984,0.0919756307128,0.103665968338,0.106254814155,0.109366996696,0.100435371425,0.0954874252259,0.0750501718401,0.0660475722727,0.0200395217899,-0.00143842342432,
-0.0175924575863,0.0399644153713,0.0609846163923,0.0782427353478,0.0932815471518,0.10191453817,0.108508228737,0.106542287847,0.103929753423,0.0911580309805,0.0805596828759,0.058321585572,0.0433621598103,0.00877986508294};
-
-initializer_list<double> lb={0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060882729124,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161732825403,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278127732180,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276041950345,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799226224416,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698742602854,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843661072667,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843659468872,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698741354404,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799221578134,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276015196586,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278148536558,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161726341104,0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060883202379};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<15,double>(double* a,double* b)
-{
-initializer_list<double> la={0.00768831049903,-0.00288207652296,0.00214977135689,-0.0017388496538,0.00144470413916,-0.00120875124594,-0.000829198279957,0.00066882097553,-0.000523450351173,0.000392046730692,-0.000274715621755,0.000172538127707,-8.77790602646e-05,2.50623437545e-05,0.00100730755285,
-0.016636222751,0.017591511872,-0.00466351386567,0.00315354205167,-0.00243709364542,0.00196545995212,0.00130260473646,-0.00104148556214,0.000810228194456,-0.000604288995042,0.000422194068522,-0.000264629686031,0.000134457272942,-3.83635400719e-05,-0.00160354180515,
-0.0147596657936,0.0382453177464,0.0267898051168,-0.0061612578219,0.00388540778486,-0.00287258727159,-0.00176882660434,0.00138957805663,-0.00106833441026,0.000790333943392,-0.000549070190929,0.000342837152367,-0.000173768948419,4.95161011044e-05,0.00223809184709,
-0.0157597621062,0.033593131848,0.0583100851091,0.0348926694815,-0.00737940946174,0.00441096801813,0.00235280924474,-0.00179283158916,0.00135144263633,-0.00098660966734,0.000679266000451,-0.000421563716076,0.000212853647458,-6.05313101683e-05,-0.00313090802751,
-0.0151094077412,0.0362144152536,0.0510754948902,0.0759798064004,0.0415673014542,-0.00828277336541,-0.00323039674395,0.00233558196615,-0.00170522856069,0.00121948195415,-0.000828185709088,0.000509364129494,-0.000255738444847,7.25131747848e-05,0.00473286955543,
-0.0155763030989,0.0344401095552,0.0552331478313,0.0664782993761,0.0905323400785,0.0465402500039,0.00484679298141,-0.00317822423571,0.00219973318685,-0.00152302038826,0.0010132184771,-0.000614961686883,0.000306254025293,-8.64724368757e-05,-0.0088394434056,
-0.0155025009303,0.0347305608049,0.0545152787351,0.0681643199524,0.0857860006893,0.0886264983356,0.0506445604814,-0.00884395744971,0.0044540016722,-0.00265139778085,0.00162101901072,-0.00093566850152,0.000452462939123,-0.000125879932237,0.108059700113,
-0.0152729660096,0.0355523462959,0.0528291945368,0.0710463622321,0.0811775780039,0.0960621911493,0.110317896557,0.0496078713318,-0.00829283528899,0.003965754028,-0.00220218558161,0.00120863973412,-0.000568634048294,0.000156114201768,0.0944637878374,
-0.0154630934349,0.0348767697188,0.0541945719205,0.068772120486,0.0846576232968,0.0908807668209,0.0964423279814,0.108055186069,0.0465402500039,-0.00739773717005,0.00330703958696,-0.00165353759768,0.000742914188875,-0.00019968210085,0.102393966899,
-0.0153041078233,0.0354387621889,0.0530702461041,0.0706135246722,0.0819151209543,0.0947857285685,0.104519517707,0.0944828731081,0.101363273373,0.0415673014542,-0.00619446743736,0.00250411534341,-0.00103139150959,0.000267213256875,0.0968801606974,
-0.0154371523082,0.0349701700966,0.0540011739497,0.0691060729626,0.0841212125758,0.0917290573714,0.098936311718,0.102346650691,0.0886695319897,0.0905140123702,0.0348926694815,-0.00473047487554,0.00158989189607,-0.000383141108096,0.101008574253,
-0.015327104897,0.0353567926925,0.0532367730812,0.070334409154,0.0823442689651,0.094148834418,0.103057947567,0.0969776508165,0.0959530872794,0.0792491951236,0.075946596785,0.0267898051168,-0.00306229400235,0.000616955204475,0.0978261646069,
-0.0154149845381,0.0350485664711,0.0538442399196,0.0693631448946,0.0837388919035,0.0922702718133,0.0999865162263,0.100819284469,0.0911150400557,0.0855716965539,0.0666317969114,0.0582431240993,0.017591511872,-0.00125960175292,0.100257228226,
-0.0153515586543,0.0352708028043,0.0534070721059,0.0700600545848,0.0827425561778,0.093603950359,0.102118319243,0.0982084351107,0.0942892512537,0.0816898987693,0.0715241886169,0.0514298388767,0.038065100267,0.00768831049903,0.098546921688,
-0.0152205067963,0.0357516577923,0.0523709704995,0.0719875245447,0.0791688488805,0.101373335297,-0.00902877559412,0.00475195482617,-0.0029816911415,0.00195702490455,-0.00126102326903,0.00075041569679,-0.000369322551827,0.000103654988414,0.0496078713318};
-
-initializer_list<double> lb={0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682830460390,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588209219898,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708189811013,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498954293869,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029809258764,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924637160946,0.1012891209627806364403100999837596574193310790047386783983520580257176993773730370466967203563940160676757413354149950886547623144359741096337832934569531306128042724779321515918252514989111725708462305198901935498672095408692145288881885618482355079091675828272564869301466038062774659511256247852975994681,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302649829266,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924593310703,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029790738017,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498847014021,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708140197696,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588143487435,0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682840107698,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302625108573};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<16,double>(double* a,double* b)
-{
-initializer_list<double> la={0.00678811485294,-0.00254981560167,0.00190909917814,0.00130038636167,-0.0010994139781,0.000928810382461,-0.000778400292638,0.000642913073058,-0.000519591764617,0.00040712132102,-0.000305112838734,0.000213868739423,6.83510931381e-05,-0.00155293958635,-0.000134342751559,-1.95156840006e-05,
-0.0146883557391,0.0155633809847,-0.00414132717597,-0.00219345482568,0.00178743918154,-0.00147829989567,0.00122248349189,-0.00100078933566,0.00080388482228,-0.000627151628945,0.000468554602992,-0.000327706017463,-0.000104467756263,0.00281624066329,0.000205533641771,2.9811971512e-05,
-0.013031488757,0.033836054138,0.0237896279206,0.00349652217282,-0.00261183969113,0.00206262230134,-0.0016592708238,0.00133445175088,-0.00105910023568,0.000819360728619,-0.000608529289731,0.000423816016176,0.000134461891658,-0.005501892634,-0.000265040935249,-3.83332614651e-05,
-0.0133402027363,0.0320395557787,0.0453551063259,0.0373989972041,-0.00752716211389,0.00435798231924,-0.00302623842372,0.00223860976756,-0.0016860315402,0.0012598276945,-0.000913650835738,0.00062593432646,0.000194986345721,0.0678462253282,-0.000387087528109,-5.53795862795e-05,
-0.0137527040949,0.030468942878,0.0490485387199,0.081454747949,0.0422891298488,-0.00813602844568,0.00453707368666,-0.0030426448597,0.00217120095071,-0.00156962068732,0.0011141466517,-0.000752443887086,-0.000230806350741,0.0593603918071,0.000460929012641,6.53498025627e-05,
-0.0134381190018,0.0316307469464,0.0465043796221,0.0712277617589,0.0921151518922,0.0456508537612,-0.00844642793523,0.00454380119921,-0.00293743652118,0.00201131394853,-0.00138126417499,0.000913338905275,0.000274062032276,0.0642830051583,-0.000551919591018,-7.72613934738e-05,
-0.0136877916708,0.0307250535497,0.0484126854179,0.0771876047046,0.0805272007369,0.0994428614739,0.0473626526138,-0.00844803342104,0.00437957742267,-0.00271671446709,0.00176767465118,-0.00113163758565,-0.000328859657487,0.060863467025,0.000670277294016,9.21436520028e-05,
-0.0134840860539,0.0314556216268,0.0469089785472,0.0730303197571,0.0872949741646,0.0869221300998,0.103173338649,0.0473626526138,-0.00814115395141,0.00405105896059,-0.00238961029634,0.00145101860274,0.000401708419647,0.0634461232134,-0.000833429576667,-0.00011156196489,
-0.0136534910994,0.030852699937,0.0481311754323,0.0761792585833,0.082566945749,0.0942391440436,0.0901815040283,0.103171733163,0.0456508537612,-0.00753689219466,0.00357023264943,-0.00196851953058,-0.000503984977066,0.0614011467225,0.0010748762191,0.000138110704035,
-0.0135108799033,0.0313575683201,0.0471183268286,0.0736838477566,0.0861478803848,0.0891305065718,0.0977679500872,0.0901882315409,0.0994377359681,0.0422891298488,-0.00665675354067,0.00295409382069,0.000657819091304,0.0630669295149,-0.00146928287866,-0.000176474389069,
-0.0136316092922,0.0309317756236,0.0479663433694,0.075711645244,0.083318432003,0.0929877390627,0.09248669546,0.0977515436513,0.0869437252032,0.0921054218114,0.0373989972041,-0.00553173970039,-0.000912793809372,0.0616885513013,0.00222414951539,0.000236026969602,
-0.0135296349037,0.0312904546822,0.047255657717,0.0740466661773,0.0855995373964,0.0899635050041,0.0964455266917,0.0925195872689,0.0941859356858,0.0805687246461,0.0814379117728,0.0311572428139,0.00140674278045,0.0628342944282,-0.00420088450714,-0.000338333283687,
-0.0135464177344,0.0312312297256,0.0473737221995,0.0743294398053,0.0852054113264,0.0904978227002,0.0957260945632,0.0935028217356,0.0927800074181,0.082790820516,0.076991449234,0.0594982449645,0.0155633809847,0.0626421916452,0.0517205830172,-0.00111212603322,
-0.0139145629896,0.0297200191889,0.0517801403484,-0.00663991736447,0.00400953505145,-0.00288422816336,0.00220571795868,-0.0017202214642,0.00133820251837,-0.00102127769889,0.00075132823097,-0.000519808800401,-0.000163692712838,0.0311572428139,0.000323598124258,4.65948022208e-05,
-0.0136145629673,0.0309923000777,0.0478442967765,0.075406523698,0.0837588989689,0.0923608077581,0.0933908534767,0.0963845760513,0.0892390852211,0.0871900993886,0.0713014722355,0.0678163782618,-0.0027092921687,0.0618906696116,0.0237896279206,0.000544740948874,
-0.0135957453899,0.0310584108762,0.0477135985928,0.075103107247,0.0841711383765,0.0918212992871,0.0940823921545,0.0955037055202,0.09037289714,0.0856776736756,0.0734976080466,0.0638674252141,0.033676577571,0.0621006168883,0.0456701566631,0.00678811485294};
-
-initializer_list<double> lb={0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003877547703,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461123720529,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935585656443,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692531883301132,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122526857723,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938028225420036,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403531555198,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403333344607,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938027679422200,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122127735933,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692532133026079,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513866744923,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461219664102,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513836001130,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935552934972,0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003895390404};
-
-copy(la.begin(),la.end(),a);
-copy(lb.begin(),lb.end(),b);
-}
-
-template<> void icoeffs<2,long double>(long double* a,long double* b)
-{
 initializer_list<double> la={0.250000000000000000000000000000000,-0.0386751345948128822545743902509787,
 0.538675134594812882254574390250979,0.250000000000000000000000000000000};
 
@@ -279,7 +9,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<3,long double>(long double* a,long double* b)
+template<> void icoeffs<3,double>(double* a,double* b)
 {
 initializer_list<double> la={0.138888888888888888888888888888889,-0.0359766675249389034563954710966044,0.00978944401530832604958004222947557,
 0.300263194980864592438024947213156,0.222222222222222222222222222222222,-0.0224854172030868146602471694353778,
@@ -291,7 +21,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<4,long double>(long double* a,long double* b)
+template<> void icoeffs<4,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0869637112843634643432659873054999,-0.0266041800849987933133851304769531,0.0126274626894047245150568805746181,-0.00355514968579568315691098184956959,
 0.188118117499868071650685545087171,0.163036288715636535656734012694500,-0.0278804286024708952241511064189974,0.00673550059453815551539866908570376,
@@ -304,7 +34,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<5,long double>(long double* a,long double* b)
+template<> void icoeffs<5,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0592317212640472718785660101799793,-0.0195703643590760374926432140508841,0.0112544008186429555527162442150907,0.00158811296786599853936524247059342,-0.00559379366081218487681772196447593,
 0.128151005670045283496166848329514,0.119657167624841617010322878708910,-0.0245921146196422003893182516860040,-0.00276899439876960304428263075887960,0.0103182806706833574089539450563558,
@@ -318,7 +48,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<6,long double>(long double* a,long double* b)
+template<> void icoeffs<6,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0428311230947925862600740355431832,-0.0147637259971974124753725910605207,0.00932505070647775119143888450800315,-0.00566885804948351190092125641621651,0.00285443331509933513092928583011602,-0.000812780171264762112299135651562540,
 0.0926734914303788631865122917633203,0.0901903932620346518924583784594290,-0.0203001022932395859524940805242725,0.0103631562402464237307199458065600,-0.00488719292803767146341420376578964,0.00135556105548506177551787075080011,
@@ -333,7 +63,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<7,long double>(long double* a,long double* b)
+template<> void icoeffs<7,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0323712415422174233176528581697705,-0.0114510172831838702881645824731459,0.00763320387242354492584664422163565,-0.00513373356322534498195629758233913,0.00317505877368563763683431730199470,-0.00160681903704610585560610128347643,0.000458109523749452982298319621634935,
 0.0700435413787260762729814536065897,0.0699263478723191669753669428559449,-0.0165900065788477711644699061373328,0.00934962278344333207631107766792938,-0.00539709193189613785462120177242070,0.00264584386673003737983031295579446,-0.000743850190171923617331065816899149,
@@ -349,7 +79,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<8,long double>(long double* a,long double* b)
+template<> void icoeffs<8,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0253071340725940647881328385774905,-0.00910594330597007502136365210466435,0.00628083114703047398060942073780760,-0.00448301561305475144191331423530155,0.00307849136832677988985383064911711,-0.00191767525463695234092563511949444,0.000972757664059263526724523824088790,-0.000277508327116919222898446613780209,
 0.0547593217675543202831907973850023,0.0555952586133436176360889986065602,-0.0136397962357816692530306620699761,0.00814970885836055053604042748372916,-0.00521535208914715338024336977463765,0.00313975298546366894234500690115627,-0.00156493491094894237579511140443043,0.000442802304342237815626944634681052,
@@ -366,7 +96,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<9,long double>(long double* a,long double* b)
+template<> void icoeffs<9,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0203185970903936029929730395276309,-0.00739786856614878686542489503086324,0.00522200359210005389185584360564744,-0.00387345129174498055049537887338993,0.00283136945006983986354937012363709,0.00122660978881256074839466284462653,-0.000622964091648914481159571486571450,0.000177778462744798652780015293222430,-0.00196219418839121917026118745577622,
 0.0439655272265284041585412645645087,0.0451620401737143510146180078107282,-0.0113354640123350470465925464814319,0.00703476680173468143903695814226945,-0.00478827613101664029445945068615472,-0.00196440573995350861710011819853350,0.000987172103665947150853208009195396,-0.000280274237640940717284308546381075,0.00320336015198485576267209135093205,
@@ -384,7 +114,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<10,long double>(long double* a,long double* b)
+template<> void icoeffs<10,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0166678360771720343983922024733329,-0.00612068029233502987025308987906619,0.00439200373028852221698614553887794,-0.00334535050882549470870888176133072,0.00254756897027876354904962225738170,-0.00188262038693525661085207791056827,0.00131081462770308391842832788419797,-0.000820986353138291127367521983463229,0.000417243835667835720457601113273652,-0.000119093958462027525114333774861831,
 0.0360661525781943304506967868615967,0.0373628372876451482864440849144243,-0.00953137359188965945260757183913681,0.00607228446174392218489428998019616,-0.00430404581295939200907563270911149,0.00306851861086753558695384716440183,-0.00209411395745032284831574789258204,0.00129624965549819963331444499418201,-0.000654328115142468560893715735581344,0.000186135539000451362540870049864093,
@@ -403,7 +133,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<11,long double>(long double* a,long double* b)
+template<> void icoeffs<11,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0139171417790434166206884301106371,-0.00514325562983490553945482672729184,0.00373560374914085018725131470439065,-0.00290037905138315003781828070850379,0.00227274215264998537669600797675868,-0.00175240116264082742702346957094253,0.00130248911731822927183376576527350,-0.000909279657711640651057229985874300,0.000570136062283444316355989598062838,-0.000289875324978482038437992853765253,0.0000827488930845835189972911298261979,
 0.0301142391948244556850291647703452,0.0313950923662261561586735748059850,-0.00810562697907984411509038761874716,0.00526282127353501507194118571645874,-0.00383743668169242759363413819373032,0.00285354676447749860209788071218239,-0.00207783291714634649529155042045045,0.00143267781287657313277759445234306,-0.000891466711988145401994499020386626,0.000451184930916069171735273863699948,-0.000128498936996653753822983719663434,
@@ -423,7 +153,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<12,long double>(long double* a,long double* b)
+template<> void icoeffs<12,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0117938340966279567986539903712543,-0.00437990215767931650940188692918276,0.00321056964125654262004469232623711,-0.00252868076291527559325483047108311,0.00202324519894856845571760672436639,0.00124774475192659582311909076184889,-0.000930499836629974148333740147760258,0.000650624788775465133900270947845369,-0.000408237882558168112866492596697974,0.000207615108480287514624040502392411,-0.0000592710487056506905538129963004732,-0.00160735902088665663692347356756028,
 0.0255198232326244639441836509717834,0.0267348314988296077400636795484991,-0.00696570366255593528084233870896311,0.00458737722346434400703031480933751,-0.00341487831325726315216580833366991,-0.00198873604147400184383034336299982,0.00146425936525797332056119445694672,-0.00101552961889071285353932174117125,0.000633880729666708085426064346671315,-0.000321341337251878490974152992793925,0.0000915875660363567404988113849493164,0.00261580117231290944435531656186262,
@@ -444,7 +174,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<13,long double>(long double* a,long double* b)
+template<> void icoeffs<13,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0101210011913289698800053980502465,-0.00377307158532573117639653956478696,0.00278561575606280540506391769715011,-0.00221827038404612727470909369006428,0.00180306469115291924767648064980046,-0.00146428618397597206373219195398718,0.00117219434523376612789533432940761,-0.000913582925476946914279833786076516,0.000682707775014527070994806526617237,-0.000477846825328057044954904151545178,0.000299962625259445461030372797434857,-0.000152576299212045336495614490534017,0.0000435604600183718814871431827825288,
 0.0219001283175295116522258243792181,0.0230303749594321119786054439884493,-0.00604331982544823445948205359739159,0.00402367675567341024867616113409459,-0.00304249472622634548710370846496858,0.00238203498776763745077474812162596,-0.00186724640081131399249109864113950,0.00143647464828385926714290321692637,-0.00106442244601130699290888262870222,0.000740852231417186149520785772376544,-0.000463345539787940887382989363911043,0.000235139088196600369947814289646073,-0.0000670516615041579007988664565837295,
@@ -466,7 +196,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<14,long double>(long double* a,long double* b)
+template<> void icoeffs<14,double>(double* a,double* b)
 {
 initializer_list<double> la={0.00877986508293796575795821903454795,-0.00328311623042934086798688316216252,0.00243769977190523648369753867532496,-0.00195809929677580446849837789111997,0.00161116775847946349648444265711885,-0.00133052156270291506772693351446155,0.00108963888466220974785039375877712,-0.000876302005740451815114376127002123,0.000684693691039925453930883284840597,-0.000512348412842921048968187481164774,0.000358848231298344463716262218571774,-0.000225331048392672084870452601877430,0.000114628208600992289517695941405055,-0.0000327274204462017607888581448243350,
 0.0189981535901935692032565753457345,0.0200395217899400524514083192657136,-0.00528828692877905772827154588731698,0.00355141173896972234311116783155499,-0.00271822648688944300089230331346735,0.00216386043522498030367910884029325,-0.00173506996416364108314035850590390,0.00137711257617749357667294331528682,-0.00106673647746380315042748249637517,0.000793568026138729677545338924362882,-0.000553593219336437327016306954809997,0.000346681281269539277437669257943583,-0.000176059960671760509587943072474205,0.0000502217676032972980292477605208439,
@@ -489,7 +219,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<15,long double>(long double* a,long double* b)
+template<> void icoeffs<15,double>(double* a,double* b)
 {
 initializer_list<double> la={0.00768831049902931708865709839430110,-0.00288207652296439580063546956640496,0.00214977135688850644287947195441230,-0.00173884965380298083558788216578044,0.00144470413915726138708869767716335,-0.00120875124593688546658128485877837,-0.000829198279957270056165475383330968,0.000668820975529917187940369682561850,-0.000523450351172725058136595675165461,0.000392046730691602014114395777496628,-0.000274715621754918118582794977518628,0.000172538127706577039763717164693461,-0.0000877790602645868752966820187805339,0.0000250623437545120994878446872165364,0.00100730755285335470627173001460784,
 0.0166362227509783404984961450415114,0.0175915118720270311773168541126668,-0.00466351386567139920910945192640114,0.00315354205167060177481027904195496,-0.00243709364541861248927066133075671,0.00196545995211755642319833638016242,0.00130260473646139385678049832465133,-0.00104148556214203561932207449711480,0.000810228194455859749132304352513766,-0.000604288995041522705160129596905066,0.000422194068522064401364461722620928,-0.000264629686030523967638173133559916,0.000134457272941865614537600421636876,-0.0000383635400718623012778712595397459,-0.00160354180515170935773759150854591,
@@ -513,7 +243,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<16,long double>(long double* a,long double* b)
+template<> void icoeffs<16,double>(double* a,double* b)
 {
 initializer_list<double> la={0.00678811485293852371294514311400453,-0.00254981560166642060794569067228638,0.00190909917813672352877801175229420,0.00130038636167335289131149058789750,-0.00109941397810467496743881733363378,0.000928810382461165787713007929583067,-0.000778400292638016970213471818843129,0.000642913073058191572480402310603516,-0.000519591764617300727073793902583398,0.000407121321020350344602879245931763,-0.000305112838734354656103913206664628,0.000213868739423092125277034461916634,0.0000683510931380568197932759579296331,-0.00155293958635445852534156874682570,-0.000134342751558613532849595377351067,-0.0000195156840005830940114810271390690,
 0.0146883557390946385758642521469263,0.0155633809846619732157109592485944,-0.00414132717596763996878861232853917,-0.00219345482567798016982323843681041,0.00178743918153624175343071841289058,-0.00147829989566992546596208722498436,0.00122248349189014866625509839220072,-0.00100078933565830982842652679008346,0.000803884822279940961686355000181995,-0.000627151628945023668023605338992174,0.000468554602991504934816921554325165,-0.000327706017463433279300993976240050,-0.000104467756262960729780516285484119,0.00281624066329179723974536344229666,0.000205533641770747263601026242237198,0.0000298119715119924600006781741765009,
@@ -538,3 +268,273 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
+template<> void icoeffs<2,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.250000000000000000000000000000000L,-0.0386751345948128822545743902509787L,
+0.538675134594812882254574390250979L,0.250000000000000000000000000000000L};
+
+initializer_list<long double> lb={0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000L,0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<3,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.138888888888888888888888888888889L,-0.0359766675249389034563954710966044L,0.00978944401530832604958004222947557L,
+0.300263194980864592438024947213156L,0.222222222222222222222222222222222L,-0.0224854172030868146602471694353778L,
+0.267988333762469451728197735548302L,0.480421111969383347900839915541049L,0.138888888888888888888888888888889L};
+
+initializer_list<long double> lb={0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778L,0.4444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444L,0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<4,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0869637112843634643432659873054999L,-0.0266041800849987933133851304769531L,0.0126274626894047245150568805746181L,-0.00355514968579568315691098184956959L,
+0.188118117499868071650685545087171L,0.163036288715636535656734012694500L,-0.0278804286024708952241511064189974L,0.00673550059453815551539866908570376L,
+0.167191921974188773171133305525296L,0.353953006033743966537619131807998L,0.163036288715636535656734012694500L,-0.0141906949311411429641535704761715L,
+0.177482572254522611843442956460569L,0.313445114741868346798411144814382L,0.352676757516271864626853155865953L,0.0869637112843634643432659873054999L};
+
+initializer_list<long double> lb={0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411L,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719588L,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719589L,0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<5,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0592317212640472718785660101799793L,-0.0195703643590760374926432140508841L,0.0112544008186429555527162442150907L,0.00158811296786599853936524247059342L,-0.00559379366081218487681772196447593L,
+0.128151005670045283496166848329514L,0.119657167624841617010322878708910L,-0.0245921146196422003893182516860040L,-0.00276899439876960304428263075887960L,0.0103182806706833574089539450563558L,
+0.113776288004224602528741273815366L,0.260004651680641518592405895187574L,0.142222222222222222222222222222222L,0.00468715452386994122839074654459310L,-0.0206903164309582845717601377697549L,
+0.116875329560228545217766777889365L,0.244908128910495418897463479382295L,0.273190043625801488891728200229354L,0.0592317212640472718785660101799793L,0.258884699608759271513288971468703L,
+0.121232436926864146801414651118838L,0.228996054578999876611691812361463L,0.309036559064086644833762696130448L,-0.00968756314195073973903482796955514L,0.119657167624841617010322878708910L};
+
+initializer_list<long double> lb={0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989L,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290784L,0.2844444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444446L,0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989L,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290788L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<6,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0428311230947925862600740355431832L,-0.0147637259971974124753725910605207L,0.00932505070647775119143888450800315L,-0.00566885804948351190092125641621651L,0.00285443331509933513092928583011602L,-0.000812780171264762112299135651562540L,
+0.0926734914303788631865122917633203L,0.0901903932620346518924583784594290L,-0.0203001022932395859524940805242725L,0.0103631562402464237307199458065600L,-0.00488719292803767146341420376578964L,0.00135556105548506177551787075080011L,
+0.0822479226128438738077716511411289L,0.196032162333245006055759781563801L,0.116978483643172761847467585997388L,-0.0204825277456560976298590118654006L,0.00798999189966233579720442148030827L,-0.00207562578486633419359528915758165L,
+0.0877378719744515067137433602439481L,0.172390794624406967987712335438550L,0.254439495032001621324794183860176L,0.116978483643172761847467585997388L,-0.0156513758091757022708430246449433L,0.00341432357674129871237641994523753L,
+0.0843066851341001107446302003355663L,0.185267979452106975248330960684648L,0.223593811046099099964215226188216L,0.254257069579585109647429252519048L,0.0901903932620346518924583784594290L,-0.00701124524079369066636422067695387L,
+0.0864750263608499346324472067379290L,0.177526353208969968653987471088742L,0.239625825335829035595856428410992L,0.224631916579867772503496287486772L,0.195144512521266716260289347979379L,0.0428311230947925862600740355431832L};
+
+initializer_list<long double> lb={0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461046L,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213883L,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939998L,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939993L,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213892L,0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461044L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<7,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0323712415422174233176528581697705L,-0.0114510172831838702881645824731459L,0.00763320387242354492584664422163565L,-0.00513373356322534498195629758233913L,0.00317505877368563763683431730199470L,-0.00160681903704610585560610128347643L,0.000458109523749452982298319621634935L,
+0.0700435413787260762729814536065897L,0.0699263478723191669753669428559449L,-0.0165900065788477711644699061373328L,0.00934962278344333207631107766792938L,-0.00539709193189613785462120177242070L,0.00264584386673003737983031295579446L,-0.000743850190171923617331065816899149L,
+0.0621539357873498645358789291293530L,0.152005522057830992561321708847833L,0.0954575126262797362375924438722438L,-0.0183752442154518373892046007271753L,0.00871256259847518198378369475574952L,-0.00395358015881043812088052856667313L,0.00107671561562791673820514665018881L,
+0.0663329286176847005521322620413143L,0.133595769223882288417924053929659L,0.207701880765970782089300497781520L,0.104489795918367346938775510204082L,-0.0167868555134113096141156100370328L,0.00625692652075604553280983178223092L,-0.00159044553324985391682654570177327L,
+0.0636657674688069298971005696893522L,0.143806275903448772071614414278563L,0.182202462654084290491401192988738L,0.227354836052186531266755621135339L,0.0954575126262797362375924438722438L,-0.0121528263131926586105878231359428L,0.00258854729708498209942678721018804L,
+0.0654863332746067702526367821564402L,0.137206851877908296570903572756095L,0.196312117184455610329806089516908L,0.199629969053291361801239942740234L,0.207505031831407243639654793881820L,0.0699263478723191669753669428559449L,-0.00530105829429122963767573726704867L,
+0.0642843735606853936530073967179061L,0.141459514781684439806339986995366L,0.187739966478873834838350570442493L,0.214113325399960038859507317990502L,0.183281821380135927549338243522852L,0.151303713027822204238898468185036L,0.0323712415422174233176528581697705L};
+
+initializer_list<long double> lb={0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590650L,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132896L,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048930L,0.2089795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918361L,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048914L,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132877L,0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590471L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<8,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0253071340725940647881328385774905L,-0.00910594330597007502136365210466435L,0.00628083114703047398060942073780760L,-0.00448301561305475144191331423530155L,0.00307849136832677988985383064911711L,-0.00191767525463695234092563511949444L,0.000972757664059263526724523824088790L,-0.000277508327116919222898446613780209L,
+0.0547593217675543202831907973850023L,0.0555952586133436176360889986065602L,-0.0136397962357816692530306620699761L,0.00814970885836055053604042748372916L,-0.00521535208914715338024336977463765L,0.00313975298546366894234500690115627L,-0.00156493491094894237579511140443043L,0.000442802304342237815626944634681052L,
+0.0485875359989128809431601473474389L,0.120859524997173167441653743003485L,0.0784266614694718218344905504966503L,-0.0159751033618784314756701138556965L,0.00837173272022616378691032206439061L,-0.00464346586210447979012617007024473L,0.00222571477528489971831530140789318L,-0.000618805695250515367603304988539769L,
+0.0518655209705812345653120779649669L,0.106193490148348406878869450082582L,0.170671134274553621284710784603994L,0.0906709458445904957412876123192989L,-0.0160210413210250131687052177938008L,0.00724120656122226986180306301493881L,-0.00319781431036077032248274309542093L,0.000859236584264852689466901723348634L,
+0.0497550315609232768867987754316325L,0.114388331537048005594660740308541L,0.149612116377721373807178037978362L,0.197362933010206004651280442432399L,0.0906709458445904957412876123192989L,-0.0138178113356099776157296836106934L,0.00499702707833882839330854713053803L,-0.00125125282539310498904640080998583L,
+0.0512330738404386449438689821435209L,0.108964802451402335553862695805227L,0.161496788801048123459107271063545L,0.172970158968954827695664902574207L,0.197316995051059422958245338494294L,0.0784266614694718218344905504966503L,-0.00966900777048593216947574579036441L,0.00202673214627524863310552980754224L,
+0.0501714658408458917606387325203000L,0.112755452137636177647973108617551L,0.153713569953479974726636094092144L,0.186557243778328144862818594413235L,0.173192182830820440946534797154869L,0.170493119174725312922011763063277L,0.0555952586133436176360889986065602L,-0.00414505362236619070692512023002115L,
+0.0508917764723050487991641237687613L,0.110217759562627971745453473389032L,0.158770998193580596009906736112795L,0.178263400320854211592721393989481L,0.185824907302235742924488538873899L,0.150572491791913169688371680255493L,0.120296460532657310293541649317785L,0.0253071340725940647881328385774905L};
+
+initializer_list<long double> lb={0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923686L,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244513L,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271998L,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781091084L,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781090983L,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271946L,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244531L,0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923785L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<9,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0203185970903936029929730395276309L,-0.00739786856614878686542489503086324L,0.00522200359210005389185584360564744L,-0.00387345129174498055049537887338993L,0.00283136945006983986354937012363709L,0.00122660978881256074839466284462653L,-0.000622964091648914481159571486571450L,0.000177778462744798652780015293222430L,-0.00196219418839121917026118745577622L,
+0.0439655272265284041585412645645087L,0.0451620401737143510146180078107282L,-0.0113354640123350470465925464814319L,0.00703476680173468143903695814226945L,-0.00478827613101664029445945068615472L,-0.00196440573995350861710011819853350L,0.000987172103665947150853208009195396L,-0.000280274237640940717284308546381075L,0.00320336015198485576267209135093205L,
+0.0390086533962843337053406260551850L,0.0981815119598481585602972012795661L,0.0651526741007338655796857173546582L,-0.0137708339866085721988706377249966L,0.00766417562464213864225207092504704L,0.00277082889275901981606719881443306L,-0.00136167198307300388077294236226989L,0.000382532112918055676721205511905614L,-0.00471358646779919455507145952426565L,
+0.0416450870273228085684590957995216L,0.0862554727725037766071341170647431L,0.141795216041145464700711349265044L,0.0780867692600007100171576016461109L,-0.0146189578759125574286313738589815L,-0.00393283991503873128187398305621736L,0.00185268620082252394849783525333888L,-0.000510573474928686025187960892672731L,0.00730042826218022637446431145744470L,
+0.0399403728698347433203974299378427L,0.0929433722727170869747695620130788L,0.124257110410775669930284959188188L,0.170000445255253483576298037267459L,0.0825598387503149407911312673217435L,0.00604823779069206122908647552112829L,-0.00261929192528838494553354639162238L,0.000696821310952462665548649117419158L,-0.0138269067352520635419828339752373L,
+0.0402546620678691503092248735433562L,0.0916857523305017059100089579837263L,0.127534519308708711343304235894883L,0.160887124987800614589386662816487L,0.157455501875987742940010463718440L,0.0651526741007338655796857173546582L,-0.00785743161241945653106118565810966L,0.00162854078450287228060545300007680L,0.169944372506609992233185841017218L,
+0.0409174684184281467032303876016429L,0.0893369082437627548783828076122610L,0.132269753941421239776471552907850L,0.152970178368016564271643111941290L,0.169907953631646521876721985329642L,0.141640812213802778205963981190748L,0.0451620401737143510146180078107282L,-0.00332833304574119817259518550924687L,0.149138771718266738595278245149952L,
+0.0404594157180424073331660637620394L,0.0909470444390776165103955871080279L,0.129078738412655170410976771864690L,0.158135732708392639204576390747998L,0.162288308050560041718713164519850L,0.125083344609367677267515591103669L,0.0977219489135774888946609106523197L,0.0203185970903936029929730395276309L,0.160046989811746400584810582165612L,
+0.0411477676557158920111340399479346L,0.0884713941466061780807381803681175L,0.134238188116506462441245417765534L,0.148873110257821193659850891834777L,0.179738635376542439010893908502469L,-0.0114898678396777335413399145557277L,0.00406860757492492542210189855671329L,-0.00100789284653560258251301674425978L,0.0780867692600007100171576016461109L};
+
+initializer_list<long double> lb={0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958263L,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353767L,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188599L,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754460237L,0.1651196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441912L,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188832L,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353150L,0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958472L,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754459123L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<10,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0166678360771720343983922024733329L,-0.00612068029233502987025308987906619L,0.00439200373028852221698614553887794L,-0.00334535050882549470870888176133072L,0.00254756897027876354904962225738170L,-0.00188262038693525661085207791056827L,0.00131081462770308391842832788419797L,-0.000820986353138291127367521983463229L,0.000417243835667835720457601113273652L,-0.000119093958462027525114333774861831L,
+0.0360661525781943304506967868615967L,0.0373628372876451482864440849144243L,-0.00953137359188965945260757183913681L,0.00607228446174392218489428998019616L,-0.00430404581295939200907563270911149L,0.00306851861086753558695384716440183L,-0.00209411395745032284831574789258204L,0.00129624965549819963331444499418201L,-0.000654328115142468560893715735581344L,0.000186135539000451362540870049864093L,
+0.0319991179775146101939898453822534L,0.0812275701118607728515460679181319L,0.0547715906289955109988837335570408L,-0.0118776128915294264824282010922476L,0.00687814639770714478385800606631069L,-0.00450274329686185241607146970564758L,0.00294087333141394952634963014459878L,-0.00177613374657410074450312651393922L,0.000884246091931209019529692891224078L,-0.000249838753970020848317861205161996L,
+0.0341639921791087090319388879631186L,0.0713553690746355578848296638813347L,0.119207290548758140477788951389364L,0.0673166798274990887728067303923673L,-0.0130965195471968997587876242976924L,0.00694886598383539031062731500230080L,-0.00414845352723169508779133417255612L,0.00239281424177035654040595767259466L,-0.00116229795133242643161918981684538L,0.000324562105530182860167670403121262L,
+0.0327609312912844373135061555894162L,0.0769022997036484359436613608768349L,0.104444079563094207185198585546974L,0.146566245550415954620379616976850L,0.0738810561786882175434732486628346L,-0.0131122091695853752390419769315554L,0.00633145505482068380026709671442490L,-0.00333810079767527560194800163458398L,0.00155179916885143634252135178552101L,-0.000424726034358327350430438151576489L,
+0.0337603981887023961472148430982424L,0.0731738754064388602303668180433277L,0.112881282055666297599715468748666L,0.128301904600177493745346364070310L,0.160874321526961810325988474257225L,0.0738810561786882175434732486628346L,-0.0119328858954177770747661561921157L,0.00509910169489681481256888156710769L,-0.00217662512835813937077319104798624L,0.000574740863059631483278249357249694L,
+0.0330111100488138859366167345435446L,0.0758879725266227230045073596456940L,0.107150367016220665457361509441487L,0.138781813182229872633404794957291L,0.140813246373541044776319182323368L,0.160858631904573334845734121623362L,0.0673166798274990887728067303923673L,-0.00966410929076711848002148427528283L,0.00337030550065473868805850594751399L,-0.000828320024764640235154483016452740L,
+0.0335855109083140896451022661518279L,0.0738414284833590875533584769376246L,0.111319315004565122742270593628021L,0.131692486323584228019263830640136L,0.152264855654238287503017967031317L,0.140883965959669290303088491259358L,0.146510972546527604028041661876982L,0.0547715906289955109988837335570408L,-0.00650189553657047627865789808928320L,0.00133655417682945860279455956441249L,
+0.0331495366153436174342435348968018L,0.0753800026904327651337818855644300L,0.108246931602492822364453022119900L,0.136727473612448500393929208677317L,0.144693593746508899499992650161267L,0.152066158170335827096022130034781L,0.128561075193254255360719170804539L,0.119074554849880681450375038953218L,0.0373628372876451482864440849144243L,-0.00273048042385026165391238191493083L,
+0.0334547661128060963218987387215277L,0.0743084307396224608524305687155750L,0.110364167611129313125134989097545L,0.133322545027295093627185132900537L,0.149644732744311691697798575236237L,0.145214543387097671537896875068287L,0.137978710163823672254322342546065L,0.105151177527702499780781321575204L,0.0808463548676253264431412597079149L,0.0166678360771720343983922024733329L};
+
+initializer_list<long double> lb={0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689192214L,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213795469L,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104743126L,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104384169L,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500566581L,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500571159L,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104387458L,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104745261L,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213757273L,0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689198219L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<11,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0139171417790434166206884301106371L,-0.00514325562983490553945482672729184L,0.00373560374914085018725131470439065L,-0.00290037905138315003781828070850379L,0.00227274215264998537669600797675868L,-0.00175240116264082742702346957094253L,0.00130248911731822927183376576527350L,-0.000909279657711640651057229985874300L,0.000570136062283444316355989598062838L,-0.000289875324978482038437992853765253L,0.0000827488930845835189972911298261979L,
+0.0301142391948244556850291647703452L,0.0313950923662261561586735748059850L,-0.00810562697907984411509038761874716L,0.00526282127353501507194118571645874L,-0.00383743668169242759363413819373032L,0.00285354676447749860209788071218239L,-0.00207783291714634649529155042045045L,0.00143267781287657313277759445234306L,-0.000891466711988145401994499020386626L,0.000451184930916069171735273863699948L,-0.000128498936996653753822983719663434L,
+0.0267179838502661811451222492270490L,0.0682542809171542158094247997671962L,0.0465725527319335628565244103579140L,-0.0102895248152872145428450144855953L,0.00612667324766953732872518254748621L,-0.00418053753704864073577283170383163L,0.00291066795410457775012630543616084L,-0.00195573987509097941918238015793114L,0.00119821656507352216046396088240308L,-0.000600947942995045366467377875974433L,0.000170372117195620967172569989546359L,
+0.0285266689062404033539906138636098L,0.0599560307356048885110634313934399L,0.101365041153570591950231026008482L,0.0582984411479976199796309262107938L,-0.0116536925866713892045122531529432L,0.00643838129780483330857548404618236L,-0.00409164865278154504328097688232838L,0.00262061890572086323919627935494752L,-0.00156237108006700551652476566069921L,0.000771530960015176748020373869400951L,-0.000217065390840345289252973780190160L,
+0.0273528599993796140716452683309802L,0.0646238924302517439343240111126972L,0.0888021849343891269062705363844844L,0.126937527092484729329395593358849L,0.0657011361275616655451722174726273L,-0.0121240615804220011533673101424194L,0.00621926257425001908979939369156868L,-0.00363063338386324112523093675663918L,0.00206324037554684363328318467300617L,-0.000992886275645834511167361281996532L,0.000275899729894848114109410456411519L,
+0.0281917210618671959125369757792893L,0.0614771890632044979378652513022305L,0.0959986109028957617417890032486379L,0.111095774316370167736965659831943L,0.143076752307042779412913905065101L,0.0682312716944751576786208820840855L,-0.0116744800519194483225694701198462L,0.00550110797962507222229619258964432L,-0.00285350543902863602874018253281001L,0.00131299566924781437948189830973959L,-0.000357437503780362671160115558014999L,
+0.0275583838281919851272674497648628L,0.0637830710080981468285145108939666L,0.0910818650883202820797656360428218L,0.120227515679858481084492789178227L,0.125183009680873312000545041253686L,0.148586604969372316510609074310591L,0.0657011361275616655451722174726273L,-0.0103406447964894893701337409372614L,0.00434292052947799880677828433134351L,-0.00183370769779943161697686150072715L,0.000481423558707219169731591890294133L,
+0.0280513489489271785306298340014644L,0.0620186537724371355693267757425691L,0.0947074765439341312295735863765272L,0.113976263390274376720065573066640L,0.135493920907904876133625411827583L,0.130024162091145482048666280121989L,0.143055964841794720294856688098198L,0.0582984411479976199796309262107938L,-0.00821993568970346623718220529265396L,0.00283415399684742380628371821853018L,-0.000692385348153570112613753642335545L,
+0.0276639114408912122742042902317279L,0.0633911326754473576838145274879445L,0.0919468888987936035525848598334249L,0.118552622171086219378444232579519L,0.128491604301018753340218129509094L,0.140643080925998956093014595872003L,0.125275599007453793761619252397768L,0.126886407111282454502106866907183L,0.0465725527319335628565244103579140L,-0.00546409618470190349207765015522619L,0.00111629970782065209625461099422524L,
+0.0279627824950834869951998439409377L,0.0623389998015362431456118757482701L,0.0940365721758552711150433197362146L,0.115164204483118666826484257969245L,0.133480105172269677585635985365705L,0.133608996624472816755143883455989L,0.135239708936815758683978573138985L,0.111334061022460224887320666705129L,0.101250732442946969828139208334575L,0.0313950923662261561586735748059850L,-0.00227995563673762244365230454907090L,
+0.0277515346650022497223795690914481L,0.0630800600574307943557851424657353L,0.0925749694015836813966928311177651L,0.117506161953706880610319082407462L,0.130099783137805101818510669179981L,0.138214944551591142784265233739114L,0.129129530102473345713648426968496L,0.119497261347378389997080133130091L,0.0894095017147262755257975060114373L,0.0679334403622872178568019763392619L,0.0139171417790434166206884301106371L};
+
+initializer_list<long double> lb={0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838649929L,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402346001L,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914408754L,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325724799L,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276299487L,0.1364625433889503153572417641681710945780209849473918737988002057266126530195794265058334322403586472850542114611378680642749906819170888434957699026963096227165491234755304019373283442547511811581075650339719603788867858131927395996660065924135188204452273716342980412244481508550772620036689300758564834854L,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276297309L,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325736902L,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914500390L,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402413194L,0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838632041L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<12,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0117938340966279567986539903712543L,-0.00437990215767931650940188692918276L,0.00321056964125654262004469232623711L,-0.00252868076291527559325483047108311L,0.00202324519894856845571760672436639L,0.00124774475192659582311909076184889L,-0.000930499836629974148333740147760258L,0.000650624788775465133900270947845369L,-0.000408237882558168112866492596697974L,0.000207615108480287514624040502392411L,-0.0000592710487056506905538129963004732L,-0.00160735902088665663692347356756028L,
+0.0255198232326244639441836509717834L,0.0267348314988296077400636795484991L,-0.00696570366255593528084233870896311L,0.00458737722346434400703031480933751L,-0.00341487831325726315216580833366991L,-0.00198873604147400184383034336299982L,0.00146425936525797332056119445694672L,-0.00101552961889071285353932174117125L,0.000633880729666708085426064346671315L,-0.000321341337251878490974152992793925L,0.0000915875660363567404988113849493164L,0.00261580117231290944435531656186262L,
+0.0226415082464546978695105146203535L,0.0581230577546837157157340098137834L,0.0400195821358365565836631323858398L,-0.00896632804601375189900412174147714L,0.00544880489816575571543655014114527L,0.00278156916561874812407426225463822L,-0.00199435710192794323160270551931218L,0.00136062625076553272030386945228062L,-0.000840553839984532063258567090571879L,0.000423460056141347174662230642939509L,-0.000120308349110379280703786321047807L,-0.00382839826778209094726230524498038L,
+0.0241748261226971991223159086687208L,0.0510550484293886763756662871780821L,0.0871038538724015915546922006176071L,0.0507918566807664804372661139524496L,-0.0103577470216968143616942058302073L,-0.00390204370620793343508578200225354L,0.00266388699069817929130618710749775L,-0.00176593366081374114507112195757116L,0.00107205559231517493201514834145065L,-0.000534534766345622524447744620771830L,0.000151074627300977163206610358729114L,0.00588867969618710894147918871599956L,
+0.0231788873633936492342183449770824L,0.0550336735248898118758263652719249L,0.0763035605834845887509628990891626L,0.110596236160954295848669502387033L,0.0583731341345887021902124747312195L,0.00591690882965931097780777409955512L,-0.00367597498519267301626859146921164L,0.00231791162580606885793696566969272L,-0.00136729574370243207975475896064002L,0.000670629185517022286304630351349835L,-0.000188000196714650100120473944846696L,-0.0110754199817737917021409005241805L,
+0.0233514110134668871562570409586137L,0.0543232717216298316487578493835701L,0.0782519909929121000782088530511676L,0.104765642234753235587278744603025L,0.111201133079663467133798800192759L,0.0622867614533506962501406090107378L,-0.0103795246551256818945668362263593L,0.00480193492467387405421263983863473L,-0.00245976665588796403560160874505178L,0.00112275870416866186970650353585504L,-0.000304349193692679899622505931686133L,0.135655440635822029787650595060661L,
+0.0237756683899705636974284546873552L,0.0527990338121421931938227287456483L,0.0814064600153755452470810237323196L,0.0992658017357268920165952622352065L,0.120422243254370077396693540931651L,0.135648942888475184202422118545656L,0.0583731341345887021902124747312195L,-0.00901252279942133497413727448213377L,0.00373560368818852441636336568251690L,-0.00156401052723059639569900617492683L,0.000408780829862264363089635765426139L,0.118656614077042081522473443921920L,
+0.0234365935659549364341013703837794L,0.0540041977640048380045751037177699L,0.0789671086793579382353111164302289L,0.103349647022346702019603349862470L,0.114082381278479225089118762354941L,0.118684843210514283558802029305476L,0.127104015290874218742119155292646L,0.0507918566807664804372661139524496L,-0.00706468960072847838736593584592755L,0.00241461456827053910446107191891601L,-0.000587157929441285525007927926212295L,0.128475566612909325935367000023729L,
+0.0237079765423662928780117670635563L,0.0530462029415178683054651284540586L,0.0808797181116576452305848318622514L,0.100223087110767428154228358452619L,0.118740625371105347612027654981751L,0.128401921174483483447543523266456L,0.111297463371011648664988399321294L,0.110550041407546712773536349646376L,0.0400195821358365565836631323858398L,-0.00465339475702450023560665071678529L,0.000946159946801215727797466122154982L,0.121791953741082644376206955766837L,
+0.0234960806272195568568091693575592L,0.0537910043349110939711015120897920L,0.0794052835420064050819002004250082L,0.102599242980423673728071549646070L,0.115282008903919431059863755005492L,0.121957721734388483055925901459613L,0.120161146582434667532590757796109L,0.0969963361380686168675019130955617L,0.0870048679342290484481686034806426L,0.0267348314988296077400636795484991L,-0.00193215503936855034687567022927485L,0.126562258948175394344111561384475L,
+0.0236469392419615642878617937388090L,0.0532620478891789279655033185946057L,0.0804474021542312812801927573683775L,0.100933088572757495740631956957054L,0.117676768105807378528758689610199L,0.126180881927588049137204691589036L,0.114723023070228835924707342738073L,0.104112394124448236467787058375982L,0.0768285946304165705472815724454424L,0.0578495651553385319895292460261809L,0.0117938340966279567986539903712543L,0.123325778154774796677162127259627L,
+0.0238920173869485934969304866741947L,0.0523469042934905536104208555611431L,0.0824989309275610772029278735167313L,0.0967817784368590868203195880662645L,0.127125792924303086274991785688798L,-0.0110819177291206372873693770391854L,0.00554513518951393724662614926968001L,-0.00318192887322027471274651669812568L,0.00178717327876101308911741172051196L,-0.000853608723970616168630490286571955L,0.000236257179789026441050939783894818L,0.0622867614533506962501406090107378L};
+
+initializer_list<long double> lb={0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952049363L,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933437884L,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485193300L,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511860996273L,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579509954L,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622278147L,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579580542L,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511861010094L,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485555961L,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933242592L,0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952155014L,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622334800L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<13,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.0101210011913289698800053980502465L,-0.00377307158532573117639653956478696L,0.00278561575606280540506391769715011L,-0.00221827038404612727470909369006428L,0.00180306469115291924767648064980046L,-0.00146428618397597206373219195398718L,0.00117219434523376612789533432940761L,-0.000913582925476946914279833786076516L,0.000682707775014527070994806526617237L,-0.000477846825328057044954904151545178L,0.000299962625259445461030372797434857L,-0.000152576299212045336495614490534017L,0.0000435604600183718814871431827825288L,
+0.0219001283175295116522258243792181L,0.0230303749594321119786054439884493L,-0.00604331982544823445948205359739159L,0.00402367675567341024867616113409459L,-0.00304249472622634548710370846496858L,0.00238203498776763745077474812162596L,-0.00186724640081131399249109864113950L,0.00143647464828385926714290321692637L,-0.00106442244601130699290888262870222L,0.000740852231417186149520785772376544L,-0.000463345539787940887382989363911043L,0.000235139088196600369947814289646073L,-0.0000670516615041579007988664565837295L,
+0.0194299477196462080138986265725847L,0.0500695755432635923426235131209137L,0.0347183775549468096159004442172179L,-0.00786303206730868570634754109820751L,0.00485274615855356234460137723834130L,-0.00348400333660768447587493382716106L,0.00260906242967983428705086502545689L,-0.00195372076841097163727673691924709L,0.00142329508753345627404375086579584L,-0.000979733532987650877168571875648996L,0.000608355059029741647181307412082681L,-0.000307359452503456643979932083820092L,0.0000874442385102884182445865602618302L,
+0.0207461084445201329864662811434272L,0.0439800566806027462386107262155192L,0.0755663734121840834838611362790007L,0.0445364951904864345700116729990245L,-0.00922091684260183471157923038803508L,0.00535465088568774835817836341051524L,-0.00365522679985131663224119457647232L,0.00260442900234894375524301082650519L,-0.00184200989476170492739286362165069L,0.00124460812210767416235581390797846L,-0.000763750235756611259863351602996257L,0.000383103892798337037853784379416009L,-0.000108591577934743383496452469989929L,
+0.0198907528982510605465179672081930L,0.0474094387268283867543203296582884L,0.0661938972977494572894970911918178L,0.0969774293976857866965958632022815L,0.0519540118842221255781308048265132L,-0.0100633070332503760077136218506629L,0.00553442491474951858506263543603369L,-0.00358522008285720277410984531537971L,0.00240894627535956901766224577323685L,-0.00157902463820694369584986417058936L,0.000951119931434866800772660663683767L,-0.000471841291130799781952598265558731L,0.000132996200941124552109905578322486L,
+0.0205039757594727670060681545998433L,0.0450910064519209141654412218524936L,0.0715749421921594625399608006277203L,0.0848574338709379334336662073674475L,0.113150057093106559270427818381431L,0.0565707950657243096030225465099442L,-0.0103514560922495229752504808065757L,0.00539400389969417161174279062738912L,-0.00329262769907881380106091466035036L,0.00205038906740336088057757139497844L,-0.00119902884864579980320098025955255L,0.000584799095209111448818836774843047L,-0.000163447833221850412977632958606346L,
+0.0200379395811026762773049698442838L,0.0468004290851373722985012660116026L,0.0678786934544959035977382705879556L,0.0918730747240793403196288054251039L,0.0989622717612276794983509717814398L,0.123214025135056194245784393996810L,0.0581378883077184775486473788172090L,-0.0100724350036075750397393009769219L,0.00494575200721657165791063787158657L,-0.00280008434310647117960545942705492L,0.00155806165539771563406261784648011L,-0.000739679166273148341290378034704055L,0.000204062801555263482705826256209194L,
+0.0204054502158797901729884290590994L,0.0454759508236551125083920512020555L,0.0706357839585394190350018686939883L,0.0870226013135695082594457746030706L,0.107200651467523064957322524313377L,0.107747586231754447594302302392499L,0.126627232707686478072545238440994L,0.0565707950657243096030225465099442L,-0.00924203332466230811416620872840460L,0.00421555651003493570635713863060150L,-0.00213818708226584330815991219328461L,0.000969743466943309791769666124404934L,-0.000261973376814827246057358499350264L,
+0.0201090061817168152079008905221705L,0.0465325912099950237391634862424573L,0.0684856351784587524310282277707520L,0.0906520150191798128358732101686384L,0.101499077493084682138599363879790L,0.116726810214305821980154938335268L,0.110741351700687436512232122198384L,0.123204897164698995213758714870551L,0.0519540118842221255781308048265132L,-0.00790443901671291755657251720423246L,0.00324285781214416194230379724261791L,-0.00134868880796416279710944168138988L,0.000351249484406879213492828892300010L,
+0.0203505939605926831435072485704830L,0.0456776460260658869193571035974826L,0.0702005053456502304916642400374320L,0.0878283822588651949776675320900705L,0.105750033663205956083654473274677L,0.110537161129099675450802082193383L,0.119931003415288271729535952210890L,0.107786939245760870847866729609373L,0.113128940611046085867840840041061L,0.0445364951904864345700116729990245L,-0.00612961830229046425206024784456496L,0.00208069323826147771860016176137939L,-0.000504106061862193226455485042934161L,
+0.0201545581441476513417662095402312L,0.0463681093713676806011908200607187L,0.0688284000508638775846195810223531L,0.0900527239139605200171919178736980L,0.102484728680910794882217858787231L,0.115095310899859590843321829939135L,0.113666714185757120810243892608961L,0.116625593468056303681920026847049L,0.0990552776098906888116602324146851L,0.0969360224482815548463708870962565L,0.0347183775549468096159004442172179L,-0.00400882562439936838541262514401512L,0.000812054663011731746112169527908313L,
+0.0203090540441620976608096625570768L,0.0458256108306676235872630736872525L,0.0699001006496815601191838777983468L,0.0883321381495556829905025602256725L,0.104972446214455558149170492281729L,0.111705115483164759938902189802962L,0.118143023016248269089785856275557L,0.110759555143680981755270344898262L,0.106950518494670596643365318117995L,0.0850493136252994588913471848639544L,0.0754800749353418536912829420318273L,0.0230303749594321119786054439884493L,-0.00165812593487157189221502827872504L,
+0.0201984419226395678785236529177105L,0.0462133262180762692937065024674326L,0.0691367924846341737707705156370009L,0.0895508372063009261849782501495942L,0.103225315993429724085266803126409L,0.114055173056925566120324926805965L,0.115103582270203188969399423305010L,0.114605876315424591269777284973875L,0.102104959077291331908585129003226L,0.0912912607650189964147324396881133L,0.0666511393538308138267369707372856L,0.0498338215041899551336074275416855L,0.0101210011913289698800053980502465L};
+
+initializer_list<long double> lb={0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123803064L,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309061141179L,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547440614369L,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706180743704L,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196847519L,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765327175824L,0.1162757766154369550972947576344179740783137386533989930593327196723800120403517006913610310213706817103420500023896627293230689834086437483040879644276247672851069454466057862661259264655868052471449074845678242281638885035488432091828695225298621902018505415108811712208315604919001522398125794729191249933L,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765326548185L,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196999882L,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706179183318L,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547443278613L,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309060101292L,0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123836934L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<14,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.00877986508293796575795821903454795L,-0.00328311623042934086798688316216252L,0.00243769977190523648369753867532496L,-0.00195809929677580446849837789111997L,0.00161116775847946349648444265711885L,-0.00133052156270291506772693351446155L,0.00108963888466220974785039375877712L,-0.000876302005740451815114376127002123L,0.000684693691039925453930883284840597L,-0.000512348412842921048968187481164774L,0.000358848231298344463716262218571774L,-0.000225331048392672084870452601877430L,0.000114628208600992289517695941405055L,-0.0000327274204462017607888581448243350L,
+0.0189981535901935692032565753457345L,0.0200395217899400524514083192657136L,-0.00528828692877905772827154588731698L,0.00355141173896972234311116783155499L,-0.00271822648688944300089230331346735L,0.00216386043522498030367910884029325L,-0.00173506996416364108314035850590390L,0.00137711257617749357667294331528682L,-0.00106673647746380315042748249637517L,0.000793568026138729677545338924362882L,-0.000553593219336437327016306954809997L,0.000346681281269539277437669257943583L,-0.000176059960671760509587943072474205L,0.0000502217676032972980292477605208439L,
+0.0168552230279503139456460219204252L,0.0435673907696408731646233759168512L,0.0303796426719757961723537022681192L,-0.00693923175519035119345305019603769L,0.00433440470550090540006755914465584L,-0.00316351532295943580063171436089832L,0.00242277289054359102627535965473214L,-0.00187121355051888424772368728276770L,0.00142453006383964222688942439349999L,-0.00104760430312298289632470226583768L,0.000725153252625853259256047396927371L,-0.000451771845981418753779397766857358L,0.000228683634142081114593321789361646L,-0.0000651217733284800126896319373713546L,
+0.0179971729465900660094843746827399L,0.0382681743915636711701172340552138L,0.0661233345536871905749021814089698L,0.0393007917895483836424004846559605L,-0.00823373536491335826742210350287508L,0.00485948742725785845997735856907124L,-0.00339128378072244485517029851665092L,0.00249119959912946624822510381855310L,-0.00184021037875169195812940290871736L,0.00132745819947615736530485315118822L,-0.000907277121182312713726071572431614L,0.000560545874372256964826230090779137L,-0.000282277859465565741926729500486366L,0.0000801673175675880271268840590184610L,
+0.0172547617984066298930832342738616L,0.0412533979917853903899376777087094L,0.0579204623738544047817452791920076L,0.0855778714769197311989090537154116L,0.0463845993694844534354291475312893L,-0.00912812000306882147124445709482786L,0.00512982390658682692428320009930379L,-0.00342399508689323368479917773962021L,0.00240100771220400841219767118394390L,-0.00167859385926087166843659137677713L,0.00112473016941185443769237507083812L,-0.000686129552116775559003003408177509L,0.000342844909038254845086894540875276L,-0.0000969793854288979175266629724320737L,
+0.0177874472666498987219915789897631L,0.0392337598958662474135725228744003L,0.0626327197421615393472331900914912L,0.0748787154811760310330609299933730L,0.101022753500743341641028589080367L,0.0512996159303239009914810164153045L,-0.00958636975953160870951134850919731L,0.00514289425654003773414845707324228L,-0.00327298200285945016047811109921003L,0.00217096714651606515875789781947959L,-0.00140979076807348690067732075971781L,0.000843606984771863475085728612171211L,-0.000416706606795931371592766062971839L,0.000117184468566671408063723397267082L,
+0.0173819598204594481529414082955742L,0.0407251338880214787650397745445252L,0.0593916061259882977498028646063490L,0.0810781747135810532747494681898616L,0.0883477443625841108910902653689403L,0.111737358469799304747462009589509L,0.0538159633657894475489691108290650L,-0.00958944502746706154293216025288384L,0.00490242083631428848742035750691602L,-0.00295118084701215774738375533809831L,0.00181927648653469995209335198496095L,-0.00105631852469745200915360223396650L,0.000512797239918080511166826616528849L,-0.000142965263485369814388244817198644L,
+0.0177026954293613013303046828862945L,0.0395662463399620243916498119148983L,0.0618156038686490443538610067702048L,0.0767823070925620673327076173269601L,0.0957203795859810646182420504006768L,0.0976968110243335134955416753236930L,0.117221371759045956640870381911014L,0.0538159633657894475489691108290650L,-0.00913812660915150276449997675889980L,0.00442145437638479597976802969363824L,-0.00247659113448428598994849887794055L,0.00136767921796329459490453992988933L,-0.000646090308141373862223136013098015L,0.000177770345416483362975029773521681L,
+0.0174425456973092601078527146718288L,0.0404957501866760362744094045943990L,0.0599156783591797288696216759240671L,0.0800113743471702541854782900716389L,0.0905982315924528417121003972430989L,0.105872213863507252143440143929819L,0.102489032475038857363789764584888L,0.117218296491110503807449570167327L,0.0512996159303239009914810164153045L,-0.00825355476177443477017029401778844L,0.00372286809792073625174003931854807L,-0.00187343439820994700252578555525291L,0.000845283684013857489244115657026879L,-0.000227717100773967206075140920667221L,
+0.0176567095513048294334431010415280L,0.0397361986708418500577297439905519L,0.0614454148960683679037104079444158L,0.0774768534096849128471085942410829L,0.0944477925982297785392948864393556L,0.100198224148443793570764361646665L,0.111055921818472128782737399397750L,0.102502102824992068173655021558826L,0.111727351863716623454206489925437L,0.0463845993694844534354291475312893L,-0.00697628789782296391410808440349049L,0.00283882297009718756296212534423074L,-0.00117435441190528548712103917728224L,0.000304968367469301622833203795234327L,
+0.0174795628483083434887895540100774L,0.0403613214393456706447433680319135L,0.0601987394695793353798811744454592L,0.0795088607002790799985270408843527L,0.0914417405394927495055534419113903L,0.104439442239399493941091435739326L,0.105140727132449428849713117839577L,0.111023210512301339953108520174781L,0.0977397444333899435229846742615378L,0.101002934103882265138280398565454L,0.0393007917895483836424004846559605L,-0.00536404920973559823019477687273153L,0.00181086918831643373269940447621332L,-0.000437442780714134493567936613643993L,
+0.0176248519392044115286060700064672L,0.0398503599457380237882233167420655L,0.0612110571899330110984868023030957L,0.0778764303264709140255449219149937L,0.0938168030420918897671829973284162L,0.101174701796808159756072608437109L,0.109503140282097779345661908940898L,0.105209153841035304071662862003398L,0.105762747183607237783593747191507L,0.0884347940334680014707907359179227L,0.0855408153342871184782540195079588L,0.0303796426719757961723537022681192L,-0.00348834718976076826180673738542408L,0.000704507137925617570270416148670639L,
+0.0175095083982726342178871903085750L,0.0402551035405518654124045816039014L,0.0604126040626820530672697352782947L,0.0791551767984332046118172762667311L,0.0919756307128301771933129561382156L,0.103665968338111605133389515326984L,0.106254814155401401521265278342843L,0.109366996695742536181078580164034L,0.100435371425422821679282923990316L,0.0954874252258583498717505983760459L,0.0750501718401270449416898014803661L,0.0660475722727306500729789504235553L,0.0200395217899400524514083192657136L,-0.00143842342431763768734013727663862L,
+0.0175924575863221332767052962139202L,0.0399644153712791126132989425900221L,0.0609846163923442644295778571381157L,0.0782427353477984228210847070933493L,0.0932815471518118279198264825437433L,0.101914538169607876529031149545768L,0.108508228737319346913052597785132L,0.106542287846916685350087827899353L,0.103929753423350717050688966345071L,0.0911580309804894433743738524054597L,0.0805596828758725717532993472030411L,0.0583215855720463558610098658609134L,0.0433621598103094457708035216935897L,0.00877986508293796575795821903454795L};
+
+initializer_list<long double> lb={0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060882729124L,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161732825403L,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278127732180L,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276041950345L,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799226224416L,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698742602854L,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843661072667L,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843659468872L,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698741354404L,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799221578134L,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276015196586L,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278148536558L,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161726341104L,0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060883202379L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<15,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.00768831049902931708865709839430110L,-0.00288207652296439580063546956640496L,0.00214977135688850644287947195441230L,-0.00173884965380298083558788216578044L,0.00144470413915726138708869767716335L,-0.00120875124593688546658128485877837L,-0.000829198279957270056165475383330968L,0.000668820975529917187940369682561850L,-0.000523450351172725058136595675165461L,0.000392046730691602014114395777496628L,-0.000274715621754918118582794977518628L,0.000172538127706577039763717164693461L,-0.0000877790602645868752966820187805339L,0.0000250623437545120994878446872165364L,0.00100730755285335470627173001460784L,
+0.0166362227509783404984961450415114L,0.0175915118720270311773168541126668L,-0.00466351386567139920910945192640114L,0.00315354205167060177481027904195496L,-0.00243709364541861248927066133075671L,0.00196545995211755642319833638016242L,0.00130260473646139385678049832465133L,-0.00104148556214203561932207449711480L,0.000810228194455859749132304352513766L,-0.000604288995041522705160129596905066L,0.000422194068522064401364461722620928L,-0.000264629686030523967638173133559916L,0.000134457272941865614537600421636876L,-0.0000383635400718623012778712595397459L,-0.00160354180515170935773759150854591L,
+0.0147596657935835599495579379109451L,0.0382453177464055777555361371553767L,0.0267898051167929837529673866714673L,-0.00616125782189826452701945604676958L,0.00388540778485748995650797025288780L,-0.00287258727158500903381330889237036L,-0.00176882660434387913394492107044070L,0.00138957805663066645209914875567541L,-0.00106833441025736725849353335977303L,0.000790333943391873816513817513980545L,-0.000549070190929407584415480432400551L,0.000342837152366744899109634183981507L,-0.000173768948419062931349295607481126L,0.0000495161011043642971631230913928475L,0.00223809184708612148925667948641971L,
+0.0157597621061541406071917707671331L,0.0335931318479854185736211582802462L,0.0583100851091268661824035925215984L,0.0348926694815385786119511986277571L,-0.00737940946173976384827296895623885L,0.00441096801812590706555516092206085L,0.00235280924473860437078970068009314L,-0.00179283158915975579588626926021054L,0.00135144263633254211230345864810751L,-0.000986609667339780165472251839726848L,0.000679266000451239434163117754700047L,-0.000421563716075716397819728976520931L,0.000212853647458382933211580026679770L,-0.0000605313101682632124896863746739518L,-0.00313090802751342417934286012797411L,
+0.0151094077411841340124542675513073L,0.0362144152536475076570565761402277L,0.0510754948901790939145299350867404L,0.0759798064004408833045786853890249L,0.0415673014542484833883002151203022L,-0.00828277336540880503184844886533352L,-0.00323039674394951171049944257284989L,0.00233558196615176564298443910486194L,-0.00170522856069432033507452748948227L,0.00121948195415413587624329276381805L,-0.000828185709088390761404758010888066L,0.000509364129493923943341426134730871L,-0.000255738444847295467362462157213771L,0.0000725131747848474283504476134943536L,0.00473286955543412436973698556430448L,
+0.0155763030989084244329229244789970L,0.0344401095551792856353578159705013L,0.0552331478312634465959558708141656L,0.0664782993761123615184061906266898L,0.0905323400785462625916172751622854L,0.0465402500038905527567001404666057L,0.00484679298140696426300794637272217L,-0.00317822423571163094902465918219191L,0.00219973318684740140886793973388926L,-0.00152302038826284084666941590870139L,0.00101321847710032825541555137730759L,-0.000614961686883209505797295930784541L,0.000306254025292725873549587624150750L,-0.0000864724368757241202958614665039038L,-0.00883944340559603285861769562965557L,
+0.0155025009302956829281881053093292L,0.0347305608049307295822013036311998L,0.0545152787351061594892301878123766L,0.0681643199523595268233594122982296L,0.0857860006893487479412995056538336L,0.0886264983355843505212644083221176L,0.0506445604813903182201550499918798L,-0.00884395744970946354663335487841734L,0.00445400167219675499213587261109381L,-0.00265139778085178116469907541322919L,0.00162101901071763040054298495728458L,-0.000935668501520191983295414469441973L,0.000452462939123332772432404594133889L,-0.000125879932237048750873908520726956L,0.108059700113265251774692518100337L,
+0.0152729660096446532887154273776346L,0.0355523462958812372687600312419467L,0.0528291945367959129786560876927991L,0.0710463622321110828606712156060207L,0.0811775780039442352442256266787681L,0.0960621911492772619098913177211643L,0.110317896556901683222398533330108L,0.0496078713317778941140295816109598L,-0.00829283528898673480148119897698628L,0.00396575402799720493942905295023015L,-0.00220218558160831593772050076925001L,0.00120863973412445964285627893313716L,-0.000568634048293621479668241547644885L,0.000156114201767673815646320252275934L,0.0944637878373826340839046195961349L,
+0.0154630934349343582976100582551061L,0.0348767697187613364810841206011829L,0.0541945719204691770117320692737192L,0.0687721204859768289684868458782066L,0.0846576232967598076232698461493058L,0.0908807668209337041045323411993222L,0.0964423279813736721773021536110375L,0.108055186069151821086676858851575L,0.0465402500038905527567001404666057L,-0.00739773717004929581501684492168096L,0.00330703958696479570549620662882437L,-0.00165353759767747909002109747123093L,0.000742914188874776719275892254832318L,-0.000199682100849790255608727690394819L,0.102393966899267419177083822404112L,
+0.0153041078232737867489637491751079L,0.0354387621889013578219961703825474L,0.0530702461040920435625933472082038L,0.0706135246721655479853071552664022L,0.0819151209543428309003571374767864L,0.0947857285684754258484748084226937L,0.104519517706730148150809542556610L,0.0944828731081216638583221776576152L,0.101363273373189910545248729798545L,0.0415673014542484833883002151203022L,-0.00619446743736372608067628813351075L,0.00250411534340687359140483825619426L,-0.00103139150959344530242286791489404L,0.000267213256874500164859929237294932L,0.0968801606974040225850747241170577L,
+0.0154371523082268973898038831632762L,0.0349701700965956794214221281986539L,0.0540011739496616839037545023194556L,0.0691060729626259177897392795008141L,0.0841212125758367469420726820803313L,0.0917290573714485634010968222851039L,0.0989363117180420320695203993036665L,0.102346650691069212407402023349894L,0.0886695319896551984478451200111506L,0.0905140123702367306248733991968433L,0.0348926694815385786119511986277571L,-0.00473047487554089867646881917866378L,0.00158989189606864378101254994508743L,-0.000383141108095506429877573978530933L,0.101008574252715544023945432482130L,
+0.0153271048969542698801510736972094L,0.0353567926924731252859830038328148L,0.0532367730812192226068251391589531L,0.0703344091540065648083178776879147L,0.0823442689651050929600866127266239L,0.0941488344180384727718938142929845L,0.103057947567124515574255021054200L,0.0969776508164696667388024837354999L,0.0959530872793661145472135898255818L,0.0792491951236394768200924599877166L,0.0759465967849754217509218533022837L,0.0267898051167929837529673866714673L,-0.00306229400235151540090242893004299L,0.000616955204475074227756258877657089L,0.0978261646069251217759600144662443L,
+0.0154149845381304964785920680481420L,0.0350485664711121967400961078036968L,0.0538442399196164914735729464764946L,0.0693631448945550928225379355328932L,0.0837388919035384894817605598375095L,0.0922702718133252457642679765806976L,0.0999865162263192425835296016591083L,0.100819284468707497585796754730466L,0.0911150400556635490902019445530490L,0.0855716965539155792658710915713611L,0.0666317969114065554490921182135592L,0.0582431240992573667150442252693358L,0.0175915118720270311773168541126668L,-0.00125960175291970632118194825290922L,0.100257228225697823847381237719034L,
+0.0153515586543041220778263521013857L,0.0352708028043186492299303902441142L,0.0534070721058793904661710561782412L,0.0700600545848320753424851922330328L,0.0827425561778053647624860344631078L,0.0936039503589538305715368766083769L,0.102118319242737906496475575367091L,0.0982084351107024335217874332073118L,0.0942892512537179909799815657919898L,0.0816898987693397053895117325634411L,0.0715241886168801380594902794212946L,0.0514298388766974610630553013885224L,0.0380651002670184581552691777917386L,0.00768831049902931708865709839430110L,0.0985469216880258710401187935393578L,
+0.0152205067962909603616678765363263L,0.0357516577923476838343019497729786L,0.0523709704994615078630784944097975L,0.0719875245446854731616228980247642L,0.0791688488804997618371713772903743L,0.101373335296767840314881479910198L,-0.00902877559412104678208843334634815L,0.00475195482617315414415454362578481L,-0.00298169114149615639649103678795289L,0.00195702490455273153237480356183629L,-0.00126102326903392563676881835050655L,0.000750415696790054527278685650135590L,-0.000369322551827174914126323016613038L,0.000103654988413980888598769410967572L,0.0496078713317778941140295816109598L};
+
+initializer_list<long double> lb={0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682830460390L,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588209219898L,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708189811013L,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498954293869L,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029809258764L,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924637160946L,0.1012891209627806364403100999837596574193310790047386783983520580257176993773730370466967203563940160676757413354149950886547623144359741096337832934569531306128042724779321515918252514989111725708462305198901935498672095408692145288881885618482355079091675828272564869301466038062774659511256247852975994681L,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302649829266L,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924593310703L,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029790738017L,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498847014021L,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708140197696L,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588143487435L,0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682840107698L,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302625108573L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
+template<> void icoeffs<16,long double>(long double* a,long double* b)
+{
+initializer_list<long double> la={0.00678811485293852371294514311400453L,-0.00254981560166642060794569067228638L,0.00190909917813672352877801175229420L,0.00130038636167335289131149058789750L,-0.00109941397810467496743881733363378L,0.000928810382461165787713007929583067L,-0.000778400292638016970213471818843129L,0.000642913073058191572480402310603516L,-0.000519591764617300727073793902583398L,0.000407121321020350344602879245931763L,-0.000305112838734354656103913206664628L,0.000213868739423092125277034461916634L,0.0000683510931380568197932759579296331L,-0.00155293958635445852534156874682570L,-0.000134342751558613532849595377351067L,-0.0000195156840005830940114810271390690L,
+0.0146883557390946385758642521469263L,0.0155633809846619732157109592485944L,-0.00414132717596763996878861232853917L,-0.00219345482567798016982323843681041L,0.00178743918153624175343071841289058L,-0.00147829989566992546596208722498436L,0.00122248349189014866625509839220072L,-0.00100078933565830982842652679008346L,0.000803884822279940961686355000181995L,-0.000627151628945023668023605338992174L,0.000468554602991504934816921554325165L,-0.000327706017463433279300993976240050L,-0.000104467756262960729780516285484119L,0.00281624066329179723974536344229666L,0.000205533641770747263601026242237198L,0.0000298119715119924600006781741765009L,
+0.0130314887570029239238070779942658L,0.0338360541380276180593656116868798L,0.0237896279206231962024812769005616L,0.00349652217282333762047567566641019L,-0.00261183969113449188384120696449657L,0.00206262230133837007802008817731631L,-0.00165927082379871426000051462803313L,0.00133445175087720853587420167870525L,-0.00105910023568189585536302557340930L,0.000819360728618994732230322769157078L,-0.000608529289730636770195138989976567L,0.000423816016176219956789937505986881L,0.000134461891657840509651754065444609L,-0.00550189263400219470130649699861349L,-0.000265040935248507636968787866946170L,-0.0000383332614651404512547242794488369L,
+0.0133402027362754284067900662363016L,0.0320395557786961649790658295553046L,0.0453551063258562077032403018991998L,0.0373989972041441830203754326368696L,-0.00752716211388616522865856954022408L,0.00435798231923588344843112214714441L,-0.00302623842372018278324271394385074L,0.00223860976756049347672080923707275L,-0.00168603154019661600337826224358255L,0.00125982769450141872687683280008835L,-0.000913650835738432921668043535352149L,0.000625934326460294421810833241733622L,0.000194986345721210110687336877989096L,0.0678462253281563804520834767661078L,-0.000387087528108609216096437675937933L,-0.0000553795862795328163738964832596964L,
+0.0137527040949456381585719692773963L,0.0304689428780194995010284424119904L,0.0490485387199112662446557436788485L,0.0814547479489546900093434676951639L,0.0422891298487506345473280197575900L,-0.00813602844568463378031886725894453L,0.00453707368665636325875087328546242L,-0.00304264485970265102036782781614618L,0.00217120095070617941088324752289254L,-0.00156962068732266188109902536961831L,0.00111414665170165347439732078861472L,-0.000752443887085733211963936880960639L,-0.000230806350741480777897190755212045L,0.0593603918070741529829473498398750L,0.000460929012640643666572498339346957L,0.0000653498025627462459581939919122352L,
+0.0134381190018423601612728088869929L,0.0316307469463899425607317444310215L,0.0465043796221450675754501548802689L,0.0712277617588559187531155126205067L,0.0921151518921634601747533085146769L,0.0456508537612308972166909169923050L,-0.00844642793523074838713993385383526L,0.00454380119920973210288173064487636L,-0.00293743652117923594369543773037534L,0.00201131394852731722720980289781172L,-0.00138126417498597858451122992075628L,0.000913338905274806437438626010877776L,0.000274062032275837566195147338256161L,0.0642830051583429101538245285291243L,-0.000551919591017902593455885724942517L,-0.0000772613934738410359920452470569326L,
+0.0136877916707669093796072977755514L,0.0307250535496773673535467999086984L,0.0484126854179133761310679478949778L,0.0771876047046273585479673839730614L,0.0805272007369102555810475990728894L,0.0994428614738752770173381402428347L,0.0473626526137671240713491808020708L,-0.00844803342103768353509484825593283L,0.00437957742267448243151600841104754L,-0.00271671446709042054123135194433941L,0.00176767465118347190532670583864947L,-0.00113163758564593222063565130415360L,-0.000328859657486953683278381006855350L,0.0608634670250274359810760616176631L,0.000670277294016365106867027648281658L,0.0000921436520028463808704116130765519L,
+0.0134840860538742010450198746149325L,0.0314556216268109001147002995040442L,0.0469089785472300272980955261528415L,0.0730303197571048941354241594350898L,0.0872949741645916896358873914595194L,0.0869221300997873120018658255735624L,0.103173338648571931677793209860074L,0.0473626526137671240713491808020708L,-0.00814115395141348258395630625822473L,0.00405105896059101351360844044229058L,-0.00238961029633899250721651869932213L,0.00145101860273950004516207947834509L,0.000401708419646579077875118588490492L,0.0634461232134128682468737924001618L,-0.000833429576666983726105394093854658L,-0.000111561964889861953717011547542351L,
+0.0136534910993508884618823314750660L,0.0308526999370481088652267711589327L,0.0481311754322642949984184395260656L,0.0761792585832743446252620951944955L,0.0825669457489739518674462366173683L,0.0942391440436410303770772717149853L,0.0901815040283245160398166309592652L,0.103171733162764996529838295457977L,0.0456508537612308972166909169923050L,-0.00753689219466219108009726899949692L,0.00357023264943244728763535265323259L,-0.00196851953057597412758638743311610L,-0.000503984977065996129309825933832687L,0.0614011467224921295887995150851304L,0.00107487621910132482951239892085417L,0.000138110704034687264617477341016161L,
+0.0135108799033143011799320922360968L,0.0313575683200654272093191092524009L,0.0471183268286057487383900554617762L,0.0736838477565867125663535444851246L,0.0861478803848239309757550648847983L,0.0891305065717556150224985864617174L,0.0977679500872368991630661894202877L,0.0901882315408778848839474883186791L,0.0994377359681464282137007012435545L,0.0422891298487506345473280197575900L,-0.00665675354066632396859260242142458L,0.00295409382069278304329079125613317L,0.000657819091304446930393476085198443L,0.0630669295148526692382020779769688L,-0.00146928287866487383969318987772537L,-0.000176474389068590732681683049387217L,
+0.0136316092921565802422641827112687L,0.0309317756236027363207345816191998L,0.0479663433693550016210589914770610L,0.0757116452440267989624189088090914L,0.0833184320029998503677792067150916L,0.0929877390626584104367600962281925L,0.0924866954599737546659775523670688L,0.0977515436512544309259410755479923L,0.0869437252032259109849507118374656L,0.0921054218113874343233146090554041L,0.0373989972041441830203754326368696L,-0.00553173970038944442584533567009958L,-0.000912793809372218547643911058115780L,0.0616885513013066416044273078542746L,0.00222414951539018470172225190192333L,0.000236026969601619019100219991707471L,
+0.0135296349036562863191162942201955L,0.0312904546821617165141440676077688L,0.0472556577169880921728028129867975L,0.0740466661773180896227734476220056L,0.0855995373963959978740743695689147L,0.0899635050040873503460093591141703L,0.0964455266917309385424293315073437L,0.0925195872688501219803829673392555L,0.0941859356858218591189075637583719L,0.0805687246460556153515767050519785L,0.0814379117727585345112376205942748L,0.0311572428138834680131190705480041L,0.00140674278045478759427331892975439L,0.0628342944281682934073314379887084L,-0.00420088450714280999606686330035426L,-0.000338333283686824424560906113468200L,
+0.0135464177343650549658896080538326L,0.0312312297255869071612024347826730L,0.0473737221994756451413615275588859L,0.0743294398052968611059339437194141L,0.0852054113264462927626796448541722L,0.0904978227001818534716954789844280L,0.0957260945631925579711248883942250L,0.0935028217356440994764432632119408L,0.0927800074181317198993439212095943L,0.0827908205159650273412253211022894L,0.0769914492339663462105741037105497L,0.0594982449644751387864927776537115L,0.0155633809846619732157109592485944L,0.0626421916452303693055391350722483L,0.0517205830172140323737511661296623L,-0.00111212603321759114997396591891728L,
+0.0139145629895638718504511923414773L,0.0297200191888691588371485995674345L,0.0517801403483892024010294171014774L,-0.00663991736447016847048675532053550L,0.00400953505144565374307933446320152L,-0.00288422816336006468552572977376197L,0.00220571795868412616231539426488608L,-0.00172022146419669039973096990320212L,0.00133820251837444408737247487043966L,-0.00102127769889472877941833005373477L,0.000751328230970276417977417651733669L,-0.000519808800401357381093296892700162L,-0.000163692712837770082722149110579910L,0.0311572428138834680131190705480041L,0.000323598124258300232159740814325638L,0.0000465948022207611067739920078135380L,
+0.0136145629673421878771450105074579L,0.0309923000776661059217701644317442L,0.0478442967764949000419313416680693L,0.0754065236980190028109460042637158L,0.0837588989688822743624257167460229L,0.0923608077581436902887448595580193L,0.0933908534766570396068241599254363L,0.0963845760513329624026988762321747L,0.0892390852211234243553617458072937L,0.0871900993886357609784972464796766L,0.0713014722354650284202751896073291L,0.0678163782617691307275446380946217L,-0.00270929216870367162794369318969099L,0.0618906696115907160694482035900213L,0.0237896279206231962024812769005616L,0.000544740948874123502083208233743262L,
+0.0135957453898776305199017672551481L,0.0310584108761858896116286425392592L,0.0477135985928050059378121491784742L,0.0751031072470227206968547784804039L,0.0841711383764809187500531602692482L,0.0918212992870790951604556278871934L,0.0940823921544760565702179592935380L,0.0955037055201722651129118334229847L,0.0903728971400006286456688260550269L,0.0856776736756059440620948568488138L,0.0734976080466150131494393746858418L,0.0638674252141213945515797098428339L,0.0336765775709903670393676091694752L,0.0621006168883438439009611066340916L,0.0456701566631096688761845420488289L,0.00678811485293852371294514311400453L};
+
+initializer_list<long double> lb={0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003877547703L,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461123720529L,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935585656443L,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692531883301132L,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122526857723L,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938028225420036L,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403531555198L,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403333344607L,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938027679422200L,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122127735933L,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692532133026079L,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513866744923L,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461219664102L,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513836001130L,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935552934972L,0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003895390404L};
+
+copy(la.begin(),la.end(),a);
+copy(lb.begin(),lb.end(),b);
+}
+
-- 
2.43.0


From ce84389428097027bafd0a4dda0d3bc7a6716585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:52 +0000
Subject: [PATCH 34/40] fix: extrapolation coefficients: continue the
 collocation polynomial from the current state (the system solved was
 transposed)

---
 SymplecticRK/include/Extrap.hpp           |  2 +-
 SymplecticRK/sage/compco.sage             | 12 ++---
 SymplecticRK/sage/generated_coeffs_co.hpp | 60 +++++++++++------------
 3 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/SymplecticRK/include/Extrap.hpp b/SymplecticRK/include/Extrap.hpp
index dcd3b15..1b9f3b4 100644
--- a/SymplecticRK/include/Extrap.hpp
+++ b/SymplecticRK/include/Extrap.hpp
@@ -36,7 +36,7 @@ namespace odes{
     //! compute the predicted values.
     //! \param F  values of f()
     //! \param Y  unknows at substep
-    //! \param u  values at preceding time step.
+    //! \param u  values at the end of the preceding time step.
     void operator()(Double *F,Double *Y,Double *u)
     {
       for(int i=0;i<nsteps;i++)
diff --git a/SymplecticRK/sage/compco.sage b/SymplecticRK/sage/compco.sage
index 96a84bc..7133eee 100644
--- a/SymplecticRK/sage/compco.sage
+++ b/SymplecticRK/sage/compco.sage
@@ -19,14 +19,13 @@ def ccoeffs(s,Rcoeffs,Rpivot):
     W=Matrix(RQ,s,s)
     for k in range(0,s):
         for i in range(0,s):
-            W[k,i]=((1+theRoots[i])^(k+1))/(k+1)
+            W[k,i]=((1+theRoots[i])^(k+1)-1)/(k+1)
     Vt=V.transpose()
-    Wt=W.transpose()
     # computing in algebraic numbers is too slow.
     # first, convert the V and W ti Rpivot, which is supposed to be a
     # set of very precise floats:
     V1=Vt.change_ring(Rpivot)
-    W1=Wt.change_ring(Rpivot)
+    W1=W.change_ring(Rpivot)
     
     # the continuous extrapolation coefficients:
     result=(V1\W1).transpose()
@@ -35,7 +34,7 @@ def ccoeffs(s,Rcoeffs,Rpivot):
 # "main" program starts here.
 ######################################################################
 
-rngs=[(RDF,"double"),(RealField(112),"long double")]
+rngs=[(RealField(112),"double"),(RealField(112),"long double")]
 Rpivot=RealField(1024)      
 cc="copy(lc.begin(),lc.end(),c);\n"
 
@@ -48,9 +47,10 @@ for rng in rngs:
         print "\n",nm,i
         fout.write(a)
         ll=ccoeffs(i,Rout,Rpivot).list()
-        lc="initializer_list<double> lc={"
+        suffix="L" if nm=="long double" else ""
+        lc="initializer_list<"+nm+"> lc={"
         for l in ll:
-            lc+=str(l)+","
+            lc+=str(l)+suffix+","
         lc=lc[:-1]+"};\n"
         fout.write(lc)
         fout.write(cc+"\n}\n")
diff --git a/SymplecticRK/sage/generated_coeffs_co.hpp b/SymplecticRK/sage/generated_coeffs_co.hpp
index 2685943..c356512 100644
--- a/SymplecticRK/sage/generated_coeffs_co.hpp
+++ b/SymplecticRK/sage/generated_coeffs_co.hpp
@@ -1,180 +1,180 @@
 template<> void extrapcoeffs<2,double>(double* c)
 {
-initializer_list<double> lc={-1.44337567297,2.65470053838,-1.76853598869,2.50218995347};
+initializer_list<double> lc={-0.116025403784438646763723170752936,0.327350269189625764509148780501957,-0.827350269189625764509148780501957,1.61602540378443864676372317075294};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<3,double>(double* c)
 {
-initializer_list<double> lc={1.0,-3.32379000772,3.4364916731,1.64959666924,-4.78568501159,3.75514084041,2.94601792214,-7.74471701777,5.257912926};
+initializer_list<double> lc={0.0357305491185137796325895223310224,-0.120654436719994313336885204575005,0.197625552980738845186369142265742,0.488099303946295111574814047249422,-1.44444444444444444444444444444444,1.45634514049814933286963039719502,1.74681889146370559925807530217870,-4.76823445216889457555200368431388,3.90871389532593066481185492211342};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<4,double>(double* c)
 {
-initializer_list<double> lc={-0.135307244905,1.36140068465,-3.97544968198,3.81878808643,-0.537612925376,3.00404135671,-6.49890590866,4.60431971203,-1.63717031842,6.84757575689,-11.9249796864,7.12227177835,-4.10029878722,14.775159637,-22.3365646865,11.9887073781};
+initializer_list<double> lc={-0.0140346284950897005959145487226678,0.0486019372325736605545433259883532,-0.0933839103763425827143062908985582,0.128248445841832335143704269186468,-0.272064374692445653761211059337587,0.891347334798628067277800271774688,-1.45211295856614643632930666872870,1.16283947666753589041138457673998,-1.72957768745573803079949121756964,5.38610471728616535857004806512372,-7.73754858453248512569968714073172,4.75101207649448593033046317272927,-4.56224020456185125738444566558148,13.8227231424440092340637978390896,-18.6901506603140784480851803467414,10.3602358782289467590178014176797};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<5,double>(double* c)
 {
-initializer_list<double> lc={-12.408089245,33.2494963344,-38.2237939377,-5.02873063466,23.45802756,-22.9802116869,61.1304952923,-69.7821321607,-11.6080506014,43.7879095114,-42.1725807055,111.473716235,-126.392162977,-22.5124628922,79.9859687145,-77.0853906901,202.751332845,-228.757413486,-42.1641229899,145.55590967,-140.652179469,368.574355006,-414.483182984,-78.0638446566,264.876374636};
+initializer_list<double> lc={0.00652144479767033603458478786838596,-0.0227335607543153515066272883718878,0.0444414392553407311553878469766995,0.0889827558943601592154474497408803,-0.0703020021623878712976062353637745,0.155179892357417469217492329319431,-0.526655446937845518839526256761459,0.961216101630233000001077634866636,0.909270151350970104638362745587246,-1.26824535345361660053556366336196,1.44390723572685266277036931710423,-4.75240552762355917691837618364563,8.07555555555555555555555555555556,4.88725319629916104805452235030884,-9.15431045995801008946207103932300,13.7721179149383334834129924497389,-43.8153403399377177401448626597679,69.2887502379160487368233931475517,30.9144597036483831702009515757447,-69.2068975935957156538936610741178,6.26504391462792532449204820507234,-20.1684108729346325976484317916734,32.6744811100872664209090302594938,15.9680017603360459407170761998645,-33.9698812570637635429515656624072};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<6,double>(double* c)
 {
-initializer_list<double> lc={1.49639906744,-4.95180935208,8.16737188579,-7.44012682161,1.31773061431,2.44419984905,3.46885805125,-10.9780747982,16.5595161236,-13.6754887605,2.9031131121,2.25641156057,7.11511835867,-21.6456349346,30.2555924942,-22.3416240113,3.47355841317,3.51124117949,13.5351598873,-39.6617231803,51.4704918804,-33.0427203787,0.857972597258,7.12633339479,24.2342876135,-68.298636147,81.5084716482,-42.1205642015,-11.0450057011,15.9575705137,40.9593172786,-110.308373491,117.679699401,-37.7198023313,-46.7864069848,36.3789798789};
+initializer_list<double> lc={-0.00341394425538142465613682525142397,0.0119291182972293007582919902695182,-0.0234025868099594206691003260606437,0.0373587315717223765002828718328323,-0.0537473916472563477528288362578741,0.0650413157420695019133403482205939,-0.0923822056569996394256833012541429,0.318198817689929340403576172702096,-0.603663185145383359852154480021543,0.893907302501738570555194891596283,-1.06262730565891896303769833710460,0.715961883036501794526065256571956,-1.11720202563486637373209764337169,3.77583222228577148767870401485267,-6.86935799353278576453615837419941,9.35420776402746153289973943728861,-9.40195856345045512212170738472487,4.63916900326327578549626908931433,-6.96303950414536163140475046149457,23.1552095203422834086130057936809,-40.7197958241965333595638759671383,52.1512023261408267198011205931426,-47.3358453397819162420370639046002,20.3315784146822995589068148072498,-23.6863879692891412066633735358657,77.9033153733487966002678635822970,-133.982834600083444458898120919335,165.299693593816204311009838794221,-141.976851735177622741297860724472,57.2736700306183397524123526006643,-46.0401413232628753124793690635633,150.534618196920251553774541848920,-255.915050270801351121657742729596,309.893964167605195982515187061306,-259.387378542494678958531925497898,101.880222529135033870285459158078};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<7,double>(double* c)
 {
-initializer_list<double> lc={-1.91120187841,6.65652759191,-12.7292168649,18.1176202649,-17.4616733791,7.96098671628,0.392403593092,-5.19865835727,17.7863259876,-32.5093393348,42.6183498714,-37.9642372565,18.1682283162,-2.37489943226,-12.6924582123,42.5222463482,-74.518286234,91.7241851084,-76.7869482599,36.4779223931,-6.36722877294,-28.8016213917,94.5845579493,-159.757941566,186.855037157,-148.584647226,69.0276582948,-13.0466093395,-61.8496467489,199.450073684,-326.127694831,365.115860088,-277.225297295,124.64287708,-23.7793975572,-127.150589514,403.254742675,-640.329586138,688.994905272,-500.006854823,214.902196978,-39.4710270061,-252.15521835,787.350624132,-1216.36742045,1259.72396109,-871.096011391,351.30665463,-58.5922594642};
+initializer_list<double> lc={0.00195167398264792470860349423258070,-0.00682659146318914183158035278065344,0.0134060237950117918528892043168009,-0.0213962661281020484229333903808795,0.0308564044943191594044178003423514,-0.0420384434096399300813147389774575,0.0494932425575729821068231412233317,0.0575130998990241244609721857722225,-0.199496718821031730176363657436179,0.384661662228330446559751389478163,-0.591747389882069922729876528862420,0.788708476307197631009618792143725,-0.882643153621393111347275129744342,0.572238431090245342291240562008436,0.837700286372255931344122410255070,-2.87075804888484737387393201615914,5.39475057055504249879194004814832,-7.90633779692677158148772237769303,9.61401117840670567889324620032385,-9.00242703999397618228137802942059,4.23013827478289244516042055850703,6.84630551858692819987999211028270,-23.1913535012659468432892791584529,42.5575428038634545536722217334299,-59.8097959183673469387755102040816,67.7740974934329500727509627826178,-56.7485022632344858585614775151827,23.0717058669844468143230902513868,32.5598637346812057150152631624788,-109.300089549447266436289476782269,196.993100971579080575891823428568,-268.646472536324198539478043361219,290.639951944372446611237383155014,-228.273629728028365027946026522232,86.7301977388557956850223801256966,93.3273238331435262735313741094964,-311.391037925695051729897426821406,554.621820031140503200989742754529,-742.092428457316066101909534560081,780.959006924487439132581331857458,-592.237743875021628223040751200333,217.683825062060974667677196246977,165.926871605140432543128319385116,-551.819157152441343480193176532624,976.709432014992694158226619724400,-1294.03116229439610420785572023702,1343.09885864494977750802814321874,-1001.62067118537394711632578908104,362.710382323299869857254698364455};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<8,double>(double* c)
 {
-initializer_list<double> lc={1.89420696335,-6.74595407993,13.6174313879,-22.132553149,30.1354696018,-30.0535602846,16.7813564647,-2.47654183242,5.53044980217,-19.7123802551,39.4552306842,-61.8202807478,77.9162549778,-71.9170865716,40.5605506614,-9.49268636734,15.363658868,-54.123002333,105.511418086,-157.829742275,186.583239525,-162.508358369,90.6500150975,-23.2936433612,40.031262635,-138.963091718,263.310898325,-377.485157226,423.961919654,-353.32079978,194.472041372,-51.736618989,98.3082610019,-336.410045088,621.002616501,-858.38310495,925.006181743,-744.496924144,404.381959445,-109.188285178,229.68525606,-775.805079808,1399.49183211,-1875.32610048,1953.09767699,-1527.59865051,819.073480824,-222.430881405,515.019542668,-1719.44701492,3039.71234666,-3966.04428446,4012.90466143,-3062.61683487,1621.13250704,-440.496988745,1116.20019082,-3688.02824601,6404.57927459,-8163.93419172,8055.10446748,-6014.38469251,3141.79531687,-851.185828495};
+initializer_list<double> lc={-0.00119350642767238450998349774899697,0.00417676372515963070144156188231403,-0.00820526119705802073503177577065736,0.0130843672118590904671224927142510,-0.0188013413560626824369959060408324,0.0255414224062775280288636963533775,-0.0336174083056080214116147035241798,0.0388700356943367440544176978499876,-0.0373138079156879085926596914447089,0.129909388728074263680015060144702,-0.252451397584862700429244527152503,0.394491354217408524535289441078190,-0.545372831042616060147091648088044,0.683155166853450199263651094783358,-0.735694989916132725209825898906508,0.464943877953553037104089201347599,-0.622439099950835005765918599232633,2.14974362252094210297287412443113,-4.10919911211519212565314628777712,6.23372060828283199430070056898120,-8.17556715568052510563118748871305,9.29302934712608715898567134219665,-8.31399164602634227693843758178157,3.78193723088486876482057439730077,-6.25618632836890646421906968334647,21.4277572988305687726658841880052,-40.2779190113562000248067863486550,59.3677335067768245235063083117652,-74.2508352758823841130305651832353,78.1445121417010282427795219541434,-62.1017578028235250744045857312845,24.3549781498747692350395544214273,-38.7231341345500867095212701311282,131.684899346116041207404322279828,-244.079571853798080402399035306553,351.522487971727497085427368864098,-424.181228444012403299714954964449,423.581931379524328001693033473530,-314.022346373078578981587434455399,114.808679429319108001167708311254,-151.157899402357500787796156473099,511.271159919897951456161839888640,-937.821922199181352517354960692807,1328.30547727887332349878583516291,-1563.96189073725174662882744496173,1510.18471660664923909760620461270,-1075.35570439101367166182070996678,379.298829129341922036154261954756,-381.239626231779005917093182040994,1284.83360156263025791551826745397,-2340.56668049353229088519081170898,3279.50599387306582340252331852451,-3802.33905564394724503361228500378,3598.55542038604993297418425172188,-2504.86956847480332133332841438642,867.018248261022662246794632408046,-633.379536452198309548390373583163,2130.41753794784516611998202637696,-3866.65324921049183037857052021421,5386.96586012084880916757446528712,-6196.14939486832815359019214800588,5804.91177208058371663547262611837,-3996.11167472521508154844826669670,1370.97883003520445125841397115178};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<9,double>(double* c)
 {
-initializer_list<double> lc={-1122.37853338,3472.68754318,-5504.45857588,6520.15683125,-6431.97481547,-3953.50621673,2206.96334712,-660.40380391,5473.9301437,-1914.7778661,5932.53450524,-9428.91945106,11216.0748506,-11125.8798997,-6912.00810877,3871.70671922,-1162.48089934,9524.26619653,-3274.83030101,10163.8796249,-16207.6950809,19376.3029153,-19340.6549967,-12151.0136569,6829.03899734,-2055.08098275,16660.4029888,-5619.52492914,17477.6969539,-27980.8781112,33643.742089,-33812.4379163,-21491.7442429,12118.7108868,-3654.13234968,29318.8339236,-9683.02778742,30191.0984813,-48555.8620493,58758.7621201,-59488.5400632,-38262.862585,21645.719529,-6538.6887877,51933.6175771,-16768.2775095,52433.0530607,-84762.943622,103294.652424,-105386.284586,-68592.1313721,38924.8891361,-11778.2331295,92635.4588314,-29207.2223989,91624.2219839,-148960.586248,182886.590426,-188071.3573,-123838.09109,70484.0237189,-21360.8747191,166443.455185,-51210.2317156,161218.510225,-263703.274243,326284.408454,-338210.338807,-225193.491246,128522.371261,-39004.8633662,301297.051273,-90447.2628019,285824.206502,-470505.856564,586777.442858,-612990.305675,-412443.878277,235971.359585,-71703.7225379,549518.144994};
+initializer_list<double> lc={0.000769678415406835911756154417337423,-0.00269427691466793288467000657421648,0.00529369763516924966199842019946857,-0.00843584205052797896671462464259941,0.0120885323537441465079334339058199,0.0213242638679170205119319732841448,-0.0274192882464948060320442885444352,0.0313085092480419528124317867359531,-0.0163153940624015324404109502333091,0.0251097283558809062889770458426028,-0.0876023082701438632248814901555844,0.170945428072305474160686327590429,-0.269125236645882849213102660117927,0.377503612266014208357956168883115,0.589168803572804870383640772448231,-0.618134595181438437464141228628787,0.383749398700612920313566963510484,-0.489630384533471126752416793407431,0.463538812462885463774951946902853,-1.60835432947341915935582462529846,3.10413957317803154565968622838163,-4.79478459844505392598432940669788,6.51308103677824515651026210483692,8.69219732675818688428961049291914,-7.53743934140722707543049162590331,3.35190765766392733579419861882201,-7.99097185386587142391241475363363,5.47055401597142364635221311593707,-18.8665167597269781014813739994168,35.9782735276904079567478133139949,-54.4662448390896486403113411321130,71.6342379583766066188974353800129,83.6829138438464657724530163926982,-64.1582899558320003499814622274222,24.5419790534833234071104568515221,-83.4790335564215047743060267025349,41.7959763814309658114234241765598,-143.343079295769403279980736986101,270.410279753703810622176439148231,-402.208676940299900427884115127106,514.894200050390526581002771478962,545.881310445824554113782910401558,-388.984162778820252834263647815235,138.530337734685295078052300425110,-576.476185351145595664309345701978,703.509795328446379805804594232979,-2393.61817562463836138336163508488,4447.40297464480343688033084702806,-6458.62721703190728097524669061401,7984.91353927345366586653930022734,7584.45454390634360825833120426549,-5041.32720705002079422988088742103,1694.41738413990386704831639351606,-8520.31895187003422607217877513034,1606.20177687302522343234788434240,-5452.45058398302515811760121472170,10087.3350417421694632270985135375,-14552.5345934307791904064106758475,17825.2969772784237360182060340329,16483.8669746099657776692842301151,-10792.2536428998276345174560967880,3585.96799507156001648865768362840,-18790.5119297078489158969766434052,2529.84456400434482896448884575250,-8577.22987865460946768660191838288,15831.5922052461709662469170157115,-22758.8503578480985654543627960685,27740.6595067952412812350666762045,25302.0038599085400361507961056691,-16441.4076365940706449393151657112,5432.64999945479919256343300851204,-29058.2781821925638140355039835856,209.690687907275065735209450679340,-715.884574678992919943115410817265,1338.74444824743738655761597666135,-1963.81749240091691993355312388632,2463.13931709434922554392438116673,2443.75629237554464386775229537129,-1667.22668227005978779340193253535,572.056293053004549193433739596585,-2679.79616261593933876334610722904};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<10,double>(double* c)
 {
-initializer_list<double> lc={0.308663498962,-1.29519460574,3.36383134545,-7.46704170044,15.1437435757,-28.1149391888,44.7273120244,-51.5468873805,34.8175242682,-8.92396510146,-1.52106932316,4.14309699845,-3.67385821193,-5.25448732422,28.95742032,-69.7158024027,113.808925825,-125.650392502,84.3362434534,-24.9169449878,-5.26633494681,14.0368589575,-11.5048220161,-19.1837058143,92.6464892649,-203.805901382,304.096737469,-313.084697416,204.840965826,-62.4290389159,-8.46011269871,16.4702023862,13.9265076842,-123.39719457,335.075694205,-610.239318307,814.289832541,-782.039663126,497.22285009,-152.585493915,2.85784472551,-43.875369634,200.987582636,-554.782865358,1120.85134677,-1755.45047972,2129.77846411,-1928.32159817,1194.24411089,-366.07564461,77.7416181475,-350.00229101,940.823596306,-1977.78018208,3401.01353213,-4787.03644976,5394.40129008,-4658.8833649,2821.43834788,-861.535950371,360.492913314,-1423.928114,3299.03903313,-6112.1016414,9519.30549545,-12416.5342876,13224.3365873,-11003.2836784,6540.9944556,-1988.16433762,1235.84509505,-4630.7691585,9979.27495265,-17168.6773711,25013.4235245,-30849.4547948,31456.6605105,-25411.2563894,14876.2787364,-4501.18644685,3665.76412838,-13337.6168579,27506.1866443,-45044.5026383,62547.2188502,-73924.928646,72845.6222724,-57467.2199843,33218.1637381,-10008.5626471,9947.44870156,-35502.9301051,71045.7171228,-112274.005155,150333.185554,-171852.487297,164767.956597,-127498.319899,72920.0349228,-21886.4866025};
+initializer_list<double> lc={-0.000518104707318547937068146705387434,0.00181392190440335864461086611315926,-0.00356422469281379996578680091936860,0.00567724219811610271611171151358992,-0.00812109314230425887400701183926098,0.0109121212859896507256497138276268,-0.0141351332683048790084010718662932,0.0179892641076264154812283727290743,-0.0227507392782082070169006282679403,0.0257434813342283051955809893725742,-0.0174450144252191359356784739559987,0.0609373923168175505235757698716123,-0.119195433767678058331125800197904,0.188394471256071221067530853589477,-0.266044378998258661061158419695370,0.349683498273390153814856957648621,-0.434968815676136838741085497923351,0.509084057361516184784825740367651,-0.524275974342676810229886184834171,0.321298514657682138742096710917688,-0.347960243223355405602483133883732,1.21079560577032898946055248871180,-2.35041895826223508357519103278400,3.66784613664140172496766690723067,-5.07377733678889930980334017197934,6.44719946226644011029174342490652,-7.57056715994592216939912347058142,7.98736974005036494510264167299951,-6.77305787343110640669043155943943,2.96286584277347040213080119226200,-4.66026651204054991345035070953340,16.1438586522071349252105113578314,-31.0661217418507043782805823000937,47.7877098180535286389940291771356,-64.6380810179221636145190371493636,79.3242890423535877651842115486871,-88.2101782244964088572348263280633,85.4699953825614423681275632299197,-63.8604465547221247989469353575358,23.9925434587916342695157835594332,-42.2177304829527569137762715035473,145.615440306601892289684403460710,-277.879751270402832912637945098845,421.744230788211394694081167330238,-558.991908557320827995236225267719,665.792389928299758951573637657383,-709.035656608493476701894964897188,646.835103935194871138178895234673,-448.028252414246520055397583477363,156.591697205617681899982473561094,-260.467787247245836013301750208895,895.017536490359322962601578300195,-1695.76956953096396867369960510781,2544.77485161902484368423656241529,-3317.48824271489953248266221803378,3860.08746435261322647387331375460,-3982.30205890443844234460696735678,3488.37867284833952946444558457862,-2308.44569554574582534833119461759,776.789265802447497882887109276716,-1107.96563542775515307344963373553,3795.70256420803099165231820416336,-7150.77559806420884694134706560501,10636.4631142817782273820776326426,-13691.9470989706754336269271419875,15659.2065814633472750753663271577,-15797.7577974004322256547694362860,13470.8928824287776201902343612360,-8667.46256052697829580432652948758,2854.36024570518046439622291487351,-3296.16087879887439239555956322637,11266.7031675048198393452621759142,-21136.2365895275378386452439648112,31236.8675150144315018039753915659,-39846.9671081219157811037491540952,45026.0666827869812327560309452000,-44742.0408609373435454130690620198,37490.7808033978268082417787737395,-23706.2674002830102374131781381076,7708.09437374877192502686975952291,-6948.00941898171159342846207716449,23713.2296598384259054964461743856,-44360.4270014842742740819391609639,65279.0231259243774131066093991484,-82778.6492506086074292137909085033,92813.9207705831839030605373734714,-91352.7226453320419728506897395202,75730.6801308867464494771754607797,-47392.5287730441877234836445344942,15296.4159339014338141731240612052,-10481.5389908286120282850247719901,35743.5099493688258151777903637315,-66763.2260331012729397668761310464,98019.1104600906222492762783945880,-123900.377803982412598754856684342,138350.244759227338300133703458255,-135494.595525285291848136126888178,111705.545404860089320413316236228,-69540.0977681891276340581577580263,22362.4125011040999498599927627863};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<11,double>(double* c)
 {
-initializer_list<double> lc={1.28345332953,-4.27998592189,7.59540310133,-9.98511988159,9.64315306443,-3.73259896712,-11.3877379351,35.3405245192,-51.382487296,38.8781588539,-10.9618771957,9.46855400714,-32.0195893685,58.5099602936,-81.5126344765,90.8904633697,-73.4833239415,20.1397550094,55.0922277423,-102.260776728,81.865351046,-26.1790420342,34.3884653395,-115.61589478,208.794768527,-285.272151779,309.624966821,-245.293015237,82.7160656156,117.368627412,-229.778103817,184.536351626,-61.1257417957,98.1642087045,-326.845019292,578.987007651,-765.920285624,789.287057295,-570.306499383,127.375115413,350.218080115,-578.398965785,446.040533667,-148.340168051,242.387267698,-797.053187627,1377.14428637,-1744.67226072,1664.14867572,-999.371664152,-109.975135997,1158.48291481,-1544.72402365,1123.75508259,-369.910829783,534.715125331,-1730.14242785,2891.43487108,-3443.3957796,2883.59356477,-1043.71434623,-1559.52460031,3697.85201817,-4167.0925246,2865.78391916,-929.331967018,1059.99977058,-3352.02194888,5329.35525135,-5715.85605147,3548.72722732,1197.39105197,-6993.6782225,11043.3416496,-11054.3183018,7255.0991605,-2317.88548182,1852.21199941,-5637.0019716,8173.34866549,-6841.49639921,12.1626382977,11586.7893354,-23934.1825885,30966.1760813,-28538.9966541,18053.7852301,-5692.66002711,2648.83579595,-7388.8148794,8206.57220819,-135.922725682,-19094.4939848,46264.469826,-71561.7634814,82345.1278496,-71555.6590942,43991.0849983,-13719.3140296,2170.0357791,-3628.4258944,-5845.91594461,34807.8356075,-85141.0796169,146658.654494,-196651.578541,209626.444936,-174478.586821,104902.908768,-32420.1813326,-3791.10948405,21198.8863786,-66862.4933941,153553.395661,-278611.852098,414080.236041,-509452.248331,514808.611701,-414803.483335,245049.163905,-75169.0046371};
+initializer_list<double> lc={0.000361297043234584496565387580589017,-0.00126504832889442978476970374799102,0.00248581273357021459110802144257397,-0.00395830580267891130937836093518687,0.00565580193850155613295546981303694,-0.00757817004228392468681727259448701,0.00975836945642499890808900328215281,-0.0122836480138987212805709477086582,0.0153354298738500653804031022440023,-0.0191588735730566224133420269303785,0.0215330056422026935637883269929179,0.0124613893933487985650986245290026,-0.0435628771990338184471937326443365,0.0853335979289654934460483006760500,-0.135178507963988546328499017029482,0.191558419747109432815223539672933,-0.253269227978827231933672822868011,0.318879481387940445660646021672727,-0.385244527784133857673504525495345,0.441949381368378848705452368768679,-0.448930761417943688705830836857629,0.272472332634136474358653194923448,0.263994526938824436943579200368843,-0.920322809586010784077213979605687,1.79306987492457749743636772855242,-2.81536700782056890260396902661874,3.93463367151569695125956906947303,-5.09037853213838019149972216242485,6.18858871266363387318849864487477,-7.04719000667442296136070425192392,7.27241626037230378265965329418918,-6.06529936397336044986465826674587,2.62077867099068208587189162384526,3.91157102824717436064786637196817,-13.5906331153900164996611036176269,26.3078081013409945328012283549606,-40.8770257349596964399170828592878,56.2223484642711587236137573182094,-71.0036255965892616189924802302480,83.2108496838122973949306636614130,-89.5321191573842305532834683733682,84.6270487755489172168276080186357,-62.0301177823084312552279718784026,22.9943472688076882302981203990174,40.7311806391037870238667428989268,-141.039619430978971081381198500254,271.248670011486776105254356207142,-417.141470933269272231044651488109,564.993844535851902006110349551761,-697.786557374428700260655775125614,791.897343756046239525163650285885,-813.980272001592198264859913505942,722.590914955337633875921553809335,-490.070295313504226089675202182572,168.921489577970856905134322056742,298.524137216427178729450859532622,-1030.51182196678558795174523567761,1970.33561805843738317011396967294,-3002.50123666899296989308314788857,4012.96510636705274481695695500481,-4864.37669417323096976776630456284,5380.66914321409467264772044894371,-5345.13437696862347704725830411481,4546.28091836931119995847774696383,-2941.50083367121928469077841985452,975.750040223529110027911431980438,1550.97733219431589162435179547726,-5340.06270776236562439304444732768,10160.2764789965847190720266144687,-15366.0996646357382931213793648248,20317.1489662951036601692412532548,-24267.6935130646220156758488450956,26326.4717116915370355737479092194,-25517.3121049290416296159250744271,21085.7502747675090968836195963807,-13247.2445970578990817727948714966,4298.42259508259241374217120036373,5773.42388871764028871531406610752,-19836.8838994085552683784152517686,37596.8189591763838710793204421971,-56525.1690444891049098287781374672,74120.6021357454547348558673723472,-87557.3110301849978720982275767835,93645.3677517909656188058663572767,-89209.7948114862438447700896639076,72299.1862855862453233999632003555,-44576.7845696194152747273962253743,14271.3038822362307388545382798519,15573.1476915605721756794526810427,-53425.0686911329230203587523480755,100966.222504796172684389422765191,-151139.989669075683669461591967963,196997.241002154406100081180577688,-230874.130095458996843001303396034,244485.846017208714022893292915057,-230176.716907761872404928134412142,184168.776672964733380141850499582,-112197.304552276060126501782796248,35622.8411030237247257284121900260,30743.9587704303806510799578814563,-105359.838898454179123629669630556,198731.753543038123952257598499762,-296625.165643278075790865586626822,385082.289536384758072782019658701,-448966.792350575419855354389526573,472393.889496184810823375700512991,-441431.418943169582783386753566340,350394.114299320886023722224038097,-211910.659687444990097550750820640,66948.8134088631721752191871588069,44757.3029229219800869081522614428,-153296.323088853679104078559272345,288846.461232735314636853101345615,-430449.992294019503508304032479738,557611.409072735922111546140605997,-648311.816048132925251679881869958,679817.915822524117579511077319491,-632767.278383474457310291352078933,500196.038998046317249895574680257,-301376.945241506546974407147917063,94974.2161213525335125433293742331};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<12,double>(double* c)
 {
-initializer_list<double> lc={15089.6077412,-53536.9962449,104840.018463,-159648.115779,206416.266093,240636.81228,-221694.604513,181871.372682,-128190.789961,70468.6334161,-20985.8179728,-235265.376985,28230.9710189,-98874.2923647,190492.731233,-285935.71315,365799.749635,421386.052189,-386996.777548,316827.27553,-223020.143639,122501.067276,-36468.3105543,-413942.100365,52292.9454372,-181404.117583,345209.211856,-512414.881608,650048.796101,741649.553947,-679389.050542,555284.598528,-390466.901886,214343.197882,-63790.395958,-731362.613537,96279.0595494,-331595.471002,625079.376283,-919779.734335,1159066.80911,1312188.60073,-1199583.55742,979182.34372,-687993.472264,377490.508124,-112318.934465,-1298015.26868,176667.47621,-605131.078376,1132403.17652,-1654919.02823,2074432.1324,2333997.90247,-2130302.02563,1737185.63371,-1219868.36032,669099.863655,-199053.374229,-2314512.10878,323688.526141,-1104048.61075,2054350.61393,-2986179.58277,3727484.02299,4173476.01998,-3804634.83665,3100351.73784,-2176245.98501,1193428.56128,-355005.196822,-4146665.09404,592937.913578,-2015837.79872,3734425.79298,-5405488.49317,6725129.6863,7501421.54126,-6832524.60415,5565197.04923,-3905565.35904,2141568.21151,-637023.57063,-7464240.21682,1086911.58953,-3685923.82924,6804923.17256,-9817611.77562,12183030.3656,13550953.2815,-12335656.7159,10045251.031,-7049193.24159,3865373.54895,-1149803.68732,-13498253.6049,1995031.30797,-6752372.60049,12433068.3466,-17891881.8747,22159120.9757,24597734.0808,-22385217.2645,18228364.7034,-12792755.6566,7015530.26226,-2087000.277,-24519621.8827,3668208.07126,-12396829.5393,22779583.7138,-32717660.7046,40461952.3742,44857067.5948,-40820536.7204,33245555.9164,-23336967.003,12800339.6087,-3808310.10819,-44732403.0942,6758064.27148,-22813101.8672,41855173.5986,-60029154.8365,74162325.3858,82165194.2035,-74785167.0328,60927318.2191,-42782718.0432,23472462.9113,-6984498.74558,-81945897.9639,12477486.577,-42084255.4702,77124300.3397,-110500370.395,136428323.356,151140394.156,-137618632.141,112171290.232,-78800536.8712,43247542.5636,-12871189.3215,-150714352.933};
+initializer_list<double> lc={-0.000259511497637036045068070459452957,0.000908711388644564837367220782453513,-0.00178564527828924216931346678368215,0.00284280672826045530870922353451231,-0.00405891399952401075307349966450595,-0.00696406718572387219029069659735602,0.00870307224374781758790651529357316,-0.0107286276024450819049084728913267,0.0132030424004708932798151758884299,-0.0163424476337177856558568771331960,0.0182726041112366540760863887060936,0.00542865920161701828335201424981684,-0.00911989898701195848858176171119362,0.0318977501083151672325916459876376,-0.0625407436947212226601625319723862,0.0992078124837484671387964284773162,-0.140859324561456757756359567046819,-0.236365979225609423252147184263607,0.288728738384775802805721953989960,-0.341469096392835266955005071730384,0.385907610238248262891032864278103,-0.387930950934600458646684429788331,0.233703808402091689333960976936348,0.186781645993818270017603743783808,-0.202649158924867791448030770391119,0.707337370912288821100786071135404,-1.38139871219891834881543597904813,2.17744075139483925690226050452522,-3.06186467435260572386711663023069,-4.95072047170225558569552208070099,5.83425463617095503471389441908050,-6.49618805081680821782331456886004,6.59337473194232458411689627136871,-5.42975954318646576658118261342284,2.32406197597439206523145581582363,4.00115980768996932864686264411393,-3.25826542827442490263840860731057,11.3438542669157293533650937276669,-22.0462211843251220970958909375202,34.4815358445751176499948834808205,-47.9260183005443082955420058897681,-74.2665957655338767045167583959426,84.2440618593959712912650947314214,-88.4757326323101452615317685013156,82.0810648361870047466173278474051,-59.2889491127828069543036527962113,21.7535436052708431464925697854440,61.5640630342827093042451643458401,-38.0626522016495391166288208116024,132.163525528381036754830188523324,-255.552123771484136107711182726059,396.518194514827079743499740328935,-544.692102072281539096405820448887,-810.407031644737199649708779155341,888.660667698487499009481819370718,-889.870306626830767602329380391845,773.845660372516441699346663750465,-516.462597671111561776780533434224,176.142544075292355984820956284473,688.032306049091240060708802941723,-1985.45370676042923420639313382713,6861.34519672875154385279123994504,-13149.2489534710313056415798393377,20123.0959520464987426989917067508,-27102.4784590267793599823908659504,-37822.9585672318615796703329157582,39505.4051843097101561898008011970,-37169.9080107369211665254079003629,29994.6915855414156122352843932839,-18507.3232592274972980837529550534,5938.70058757412969270406958707965,33314.6950669582699308866561027182,-8955.66139788887029101439066419449,30891.7186309756442409455047450258,-58997.7109410280898663210723681774,89814.9908808322764742235352980290,-120080.480066126759806738950440558,-163844.693186834410345848513109754,168433.899516423258961163190879156,-155503.843509093880308445803559769,122904.030207735507063510791008470,-74355.2246566124021828511476274134,23532.1030875719857808455865489440,146161.555349795239370628145636010,-29855.9582323976936607393192146482,102834.106764535442510092681782481,-195860.935502994925548809206068242,296945.038939808804575836239808700,-394756.059015582493324622850705196,-529546.634235243468538702394795006,538099.165439802377420941259960426,-490172.949814321228185888234362469,381941.212831710927865724329090818,-228084.480912529245423765057822618,71549.8961104349233238269652655487,476908.391285753722294829235411416,-74232.8966109772806236445758594053,255403.223396848826012922572508222,-485465.041938559929603272349965017,733781.352875612487074681453119645,-971423.413756376345210153031545467,-1287288.00963643677976961341456443,1297474.64533428587394435946675516,-1171078.82809123450677340507225091,903838.625083079126758417666288046,-535173.131307076740540902829062840,166934.871457221169953743594493885,1167229.48814495119592921003853002,-138729.673433913782249836498290477,476954.378932121835523602395209279,-905346.137988261717953186552078552,1365638.59523714258862459108159353,-1802880.19550963604798330545830269,-2369912.57771474892265593303837685,2376087.78855956153401598201162599,-2132025.18931078124884733437158665,1635648.39140278337665896515915609,-963392.476325818622847710168112417,299468.192225267185093625327721553,2158489.85598491200785796845067412,-196015.250681383106180580858198921,673629.151876113839107114972204905,-1277715.89993650729399589134602476,1925182.01147383305480143132466131,-2537730.83651410359876185238953361,-3321434.73442302733936430949614898,3320732.79338050056489588255878550,-2970384.49663577502117119145896810,2271672.48279326381895796973394851,-1334354.55933614182724627366955306,414041.296596253256244250468646522,3032379.03218729077607307550545523,-322.379307579441580825391113589282,1116.56088512409768937658484616870,-2148.73120965472171559578075710864,3309.42956358772278858914462188764,-4497.87642350705627523593009828251,-6460.24890427041075426062886530096,6892.20621594511797453947526175081,-6657.63673437296319784429431465623,5537.92712187816475979753243547423,-3522.22990764357599607334877890925,1155.79224547144526197345211558879,5597.62383831736531110144842629198};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<13,double>(double* c)
 {
-initializer_list<double> lc={6.18176128297,-21.4088030062,41.2032239688,-63.4925321578,86.3571897811,-107.37632351,122.748985605,-125.821025934,106.229079053,-57.7526517733,2.80796017296,18.1708135972,-6.83976860739,29.3715050623,-102.45868763,199.730079683,-313.287981524,435.283609025,-553.316659533,644.617014805,-671.512946001,592.414474957,-405.397306015,192.298188004,-57.7355397268,10.5021886374,109.796819223,-383.654439846,749.646798473,-1177.90902594,1634.98888026,-2065.08918374,2373.27152366,-2428.28240822,2125.01151597,-1509.14992576,827.974187706,-338.771145183,82.5077078987,364.401954969,-1271.80909826,2478.21640893,-3872.7161127,5323.59355928,-6621.91504359,7452.81646658,-7451.89638293,6417.05041467,-4587.76010388,2635.93729272,-1166.60756702,300.946214002,1110.79189233,-3866.30184334,7493.29352089,-11606.4586261,15745.0210292,-19234.1396905,21174.1547851,-20690.3178434,17506.3965183,-12473.8653003,7292.45935786,-3328.68586832,877.860102844,3161.02032178,-10964.3493825,21110.1464575,-32364.1647395,43278.2882637,-51901.9534222,55922.2707454,-53464.3405854,44445.0167831,-31415.5750375,18452.4160238,-8528.39532119,2269.79462605,8490.0076635,-29336.8868751,56085.2395004,-85072.1387735,112128.402232,-132074.219978,139424.996684,-130566.051911,106640.585243,-74553.3496964,43673.3110434,-20238.3420851,5398.59790906,21701.0715115,-74694.6450483,141774.993514,-212768.931787,276492.598491,-320079.347135,331357.217692,-304161.301075,243983.247241,-168255.31019,97756.3411377,-45106.1141708,12000.312948,53134.4532336,-182171.241919,343302.081579,-509820.80728,653408.89606,-743800.778543,755513.715009,-679849.17708,535020.381473,-362827.156967,207941.321012,-94917.9017131,25066.3344108,125260.221645,-427775.383558,800421.970058,-1176374.00052,1487289.40127,-1665182.927,1659589.03838,-1463019.3603,1127277.9417,-748623.139641,420421.710975,-188363.541185,49078.1763737,285435.621257,-970970.137533,1803904.90932,-2623774.17869,3272253.9117,-3602686.1396,3520781.83805,-3035720.68995,2282330.82018,-1475068.60792,803962.169861,-349385.312719,88935.8951921,630588.341479,-2136555.49975,3940754.33118,-5671472.01365,6974776.15211,-7545791.03787,7220033.32146,-6070708.01759,4428377.46844,-2757640.92178,1435328.02815,-591985.665722,144295.605122,1353394.5182,-4566738.44274,8360156.71941,-11899632.0457,14418794.5516,-15305946.4351,14300015.9164,-11665769.7633,8178866.87936,-4821525.68873,2321358.07934,-863429.147653,190454.944197};
+initializer_list<double> lc={0.000191143261294369146189010052904495,-0.000669338899259159443916833924739143,0.00131528471962302855024511923998661,-0.00209368205683340446242653776586629,0.00298783379709357245892347872798023,-0.00399133963012437823160967565770667,0.00510765575750585181474848461449431,-0.00635350629740387361608569089807723,0.00776708512411653060239457342645326,-0.00942484025812891088820094110026996,0.0114711629015880896712132851946615,-0.0140966071586379925523629158513703,0.0156976213798722022144739195379944,0.00681773307859424360936250360289601,-0.0238538338514346942340946075676983,0.0467977984738083678235808951452037,-0.0742998909602745514966947812214012,0.105617169080672790723415986750038,-0.140270325445143008256413537319188,0.177926123787854183888848780584490,-0.218283748911194404783305827204434,0.260773182238093773683827889976471,-0.303487163700452343642667429650832,0.339054780213488804296421093473069,-0.338071083158028548072589484303679,0.202480059542526403857034599484704,0.157420422802476083655573174442963,-0.549934942823117840009058919299920,1.07573128870680327238486693169487,-1.69997709075164063123766414974263,2.39976929544347304050425798488281,-3.15474305543748166291284941273402,3.94148673600776652064155977703132,-4.72528905361067651664831262333060,5.44237049697067860455937261369387,-5.95779180088742820312687339332168,5.96997134673864146432096554087562,-4.86798175371340430204862693704371,2.06817906518725521351968616805968,2.70605707669351639128008355860918,-9.43480874993270253843392709302829,18.3867014874658341448769351784350,-28.8862163588159619210300735156874,40.4256264731655975299491100195670,-52.4844024748303747884610603995856,64.4031505051222574582076119410851,-75.2043741107820069770563267615040,83.2795532423128057234854309943927,-85.8702118943639891985821269255904,78.5210751094495747316252338913048,-56.0714840193496980937139572180365,20.4081590441449774275310740265404,34.7887256368531370291799571097323,-121.035329002149865511558046322662,234.931584825721131512218111226350,-366.787172293622126213713271323685,508.674647717118448151683681961736,-652.006776387329654033052672822538,785.857627989380882123536099356952,-894.893970056003497374379417905799,956.638369410733650966759774332964,-939.047185551329510483165835385922,803.666904124262999603514070413640,-529.672403200461429136912195462250,179.160730411307609939450788395418,333.007681081991235905325106673807,-1156.18750831805933766288226776601,2235.47277284943149229813429727946,-3469.26208983253026652432635425847,4770.19937673192764038797201445957,-6042.22308589494098024893876711411,7166.07597084918941142027693653678,-7984.93398789098309677389202508970,8292.61369158177573473284188202356,-7840.80227358159914481718666898890,6410.44247178574944939825329003449,-4023.09816799315053881891174584989,1309.07991947322083330630153799886,2372.63933422271055401552329343132,-8222.17984453977226508627843544080,15841.6429931766263673368904051576,-24452.9917507427946380129929919663,33368.3560525375566433243192538295,-41833.3563525498021577310021770936,48941.5443183744882046580348278650,-53573.2525675828677848285973343785,54393.5036016121582946841582497436,-50026.7323364254589583189163720458,39634.7733499270259727741489337187,-24115.4341990025169056623014676126,7671.98740099264667284701381479201,12634.3209059748144419784770160815,-43711.8408727363217642549607012767,83964.8746219994557873544655864621,-129013.658305917747905059968817222,174927.421309662593291276283372675,-217437.311874640409379426862866828,251577.835540463425693562352907480,-271546.781054018125020239616131443,270991.597856571761543107551805694,-244254.976036915421439119647397892,189344.883451133890481573744350824,-112888.652672273738498837939566978,35412.9023598538003354831532064840,50624.1425288896547332112037497341,-174911.556107100545702462130824042,335145.084035566943529037425754972,-513024.325973001528084157880653766,691998.370431712844141962739564379,-854300.912986487827609900486647976,979853.260803112285238155594549418,-1046266.46751179747271601106868639,1030739.22678294817193264692693510,-915555.522965025352435204968503088,699014.768997526927601084129608201,-411103.570796027400265929201640097,127788.227006058817860994155749984,153812.713675817720050749172717207,-530870.529666730378261619921190807,1015189.54598531512972851291413120,-1549424.28714230012023837600143990,2081522.48267483689012335421512046,-2556217.21049819077854860266880763,2912514.02244181945127761705094110,-3084914.38578750355763548898166274,3010550.79738206302259712833851610,-2646313.32846529434524873380100540,1999129.30913996517846684908430564,-1164878.21728424085846931426050062,359899.908719112366328035180867700,356980.455759261865670305424645973,-1231101.02297471109576900447323172,2350792.14518950585831474040552423,-3580023.86637190097547260517756092,4795134.21858785272120633029888708,-5865997.64622353755947835480199797,6651592.55495588021451733026761210,-7004743.91948810522759846829111246,6790518.15261740774572855041812630,-5925873.82497499599775852845480346,4444484.81938732904032148639141930,-2573775.57436962614274903351508606,792014.408694684919722207904680840,636790.296618659954378450820895854,-2194876.21619944930516192241027895,4186954.86565074048003943810199075,-6366887.50361530241625388392108317,8510799.23513434400249410142509706,-10384624.6852085259967844285825652,11737862.0026642122042835488770331,-12314149.0637792437021615258328854,11885865.5400304810100811231024302,-10324154.3908487211708325834657989,7707827.85813724862920808331174379,-4446204.81686143356555961881891844,1364797.83707618948775819999561312,877114.773509286297068251346196909,-3022322.55330124959404483750415653,5762252.89782463455285136300626574,-8755276.27751225313592150707775854,11690627.7153222030232216591140489,-14244575.4550749847821780373159164,16073051.8524870454394474011535809,-16827728.8535517024804555124754986,16204836.7883176807356555961435618,-14040836.2288341319874666434750388,10457334.8893897533149808847621769,-6019951.77496278688106541481211781,1845473.21847803285720087187107035};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<14,double>(double* c)
 {
-initializer_list<double> lc={-10.2910491202,35.664993216,-68.7690593391,106.433249186,-146.143486192,185.39642504,-221.090120197,248.301799929,-257.919153498,234.545421863,-165.851313177,75.7307225154,-17.8050930492,2.80352091872,-37.8146707035,132.338523122,-259.733684784,412.461025995,-585.586404894,772.931726436,-961.633253189,1122.4622396,-1199.57644092,1121.31552041,-861.4533029,512.670772996,-226.530722086,58.6555525289,-127.533527568,449.176493725,-891.308807027,1436.18387126,-2072.3812891,2776.08252332,-3485.35745561,4067.17411304,-4307.61478053,3993.98336655,-3110.01615948,1957.86729941,-943.914202008,257.998792589,-419.31281058,1480.64665275,-2949.65192304,4771.86604845,-6900.28250086,9223.2510543,-11480.005349,13188.4334419,-13696.0362204,12495.2164278,-9710.66891203,6230.48028131,-3097.47691771,863.797656097,-1339.00310264,4725.6243428,-9399.29190847,15151.2885643,-21758.1474422,28749.9844067,-35191.143242,39587.7822849,-40213.997217,36047.9663581,-27821.6303942,17963.3276836,-9049.83293363,2547.27955264,-4106.28213009,14457.1806258,-28619.9664553,45782.1593799,-65007.3010966,84584.1318258,-101556.379216,111783.50441,-111149.978578,97965.4592768,-74967.7840375,48442.8287715,-24548.5740093,6941.17487665,-12028.9475136,42212.8729025,-83056.6348642,131630.981158,-184528.26899,236213.661496,-278208.662784,299959.283374,-292452.132585,253777.860221,-192484.901619,124147.105817,-63045.1576478,17863.0908914,-33665.5384543,117722.830993,-230120.73267,361194.394176,-499866.140966,629804.977509,-728450.831141,770630.830483,-738097.963772,631449.719276,-474738.47382,305173.151355,-154973.169074,43937.0781309,-90284.1418115,314589.040108,-610987.121513,949996.932245,-1298610.47557,1611975.99679,-1833540.94495,1906496.54386,-1796860.40748,1517307.74721,-1130930.26467,723914.839573,-367116.504438,104048.878818,-232926.029018,808835.157758,-1561190.24342,2405771.30399,-3250717.00326,3979700.03138,-4457719.66993,4562642.28605,-4237515.17983,3535076.87501,-2612497.24602,1664083.26423,-841917.241591,238373.801712,-580415.196637,2008916.80998,-3854831.32903,5890316.55587,-7873356.14628,9516041.49745,-10509107.7567,10601507.5773,-9712769.2198,8009922.57767,-5869055.98806,3717797.52462,-1874977.57673,530010.768419,-1402031.63101,4837652.74515,-9231319.35935,13994104.4745,-18516456.6363,22113159.7378,-24100582.7092,23985043.7755,-21693008.0735,17690698.9955,-12849109.2346,8088955.74959,-4063156.88353,1146049.14001,-3293466.23197,11330507.7553,-21507332.866,32359369.2865,-42408243.6774,50076780.3535,-53901167.3016,52955252.6505,-47301693.3035,38146289.414,-27451671.9793,17160329.5062,-8577522.61382,2412569.09162,-7543805.68648,25879784.9901,-48877225.8174,73012921.2398,-94815134.5262,110757923.302,-117797404.982,114289160.557,-100833420.854,80389078.3602,-57275559.9376,35512893.781,-17644227.8997,4945017.55156};
+initializer_list<double> lc={-0.000143860186480300085223265793234087,0.000503778733649417808252075545760118,-0.000989956715755953369011079643349013,0.00157566577224381150454765298919623,-0.00224781262874058780035666692043071,0.00300032526585739231447375620697156,-0.00383316110569362925068817099544978,0.00475360031087827830770000562790239,-0.00577983669145009976955310885770288,0.00694837914623939678909929299419187,-0.00832876721756750134212720279426869,0.0100494368589985986620818190571386,-0.0122789041906421032089449066208731,0.0136292083000571100189511658521211,-0.00519298939999977991725559833916524,0.0181734908915094193447855095764145,-0.0356686056768736009754758086584851,0.0566632126344044338424200653665161,-0.0806059268413398515031941214728109,0.107149791946105455940758264498288,-0.136074426913374381081903128288563,0.167242710390383249004383109157655,-0.200523218582114078950212436497040,0.235535155633935569255833075925586,-0.270716652743865350129037121954253,0.299715250512895484463232225032238,-0.296920300796304800615442699771734,0.177005067112851472652913095736417,-0.123715110119892358072465219903887,0.432446527085698689558758056675433,-0.846860130708616776725350017395879,1.34062623023114885761742864399720,-1.89733877262064004343902728347164,2.50362594837660806354869748715796,-3.14594117001054107441658371554803,3.80693382674732109481090201984731,-4.45854616147779209906845618725276,5.04630145883742934307217532630413,-5.45180683384706374260994137080559,5.40806938904837190557785264221312,-4.37520116008083881611220774657617,1.84780530100392445966331999343358,-2.24754667458730470010611727934563,7.84424289471443518580257982799527,-15.3169050381686659659076914657113,24.1381953917070744052683795131243,-33.9383834414382330957902919698295,44.3690049176588484846372922398102,-55.0260427629072402449933528266766,65.3561413900466473931102869891025,-74.4981098101719966935846831892469,80.9965939655793716437882250532462,-82.3291685164718704057076784016009,74.4281576630086929640185361961315,-52.6657264493074170361173332886014,19.0459000179318153305078387000926,-31.3136044069436351286731583682362,109.102971305966061724664369339523,-212.358129811940976627275225152057,333.009737559241709993044284685516,-464.901844246232644120907536892885,601.805968845808919200795018050213,-736.249023695411133906045508496774,858.168930080316264803236599792614,-952.999213210618155869871312316782,999.089489836033746308569309214413,-965.570335199478970144726551057222,815.978270078236847255454144883422,-532.435670885316143452524807119024,178.914829432159032918277728078004,-332.673927607939667364466733725224,1157.13015746505004672987892280730,-2245.07660021665116843339747261316,3503.46013218537222510824888174277,-4857.23605518104192337043643835867,6228.11627590559749903605662217228,-7522.45684472964107490688347751965,8619.04354423265680729459520615981,-9355.37321530500919479758447639432,9517.03964828459394768665412743940,-8848.96448371744020182485210846263,7136.42088214393684046585947402701,-4431.44739353085331493937924496591,1432.35832388690523443548888177892,-2687.52119676479928619017261212376,9333.02597187851201751287857900660,-18054.3694438880365055066197016013,28046.9761382861896569772333633930,-38638.7892822058459746608143240643,49121.8053542880929568288418427365,-58663.6650153988907764930565655731,66233.5002039177881636795930445197,-70546.0419528241800852003303317132,70079.9088089415548904196179865516,-63314.1128463294121395378857791406,49438.1832530528927398658403547195,-29748.4567207161534051898680955542,9400.00270028793407566370911651858,-16534.0707667854470621987126272570,57336.7330820602602127807361938737,-110623.895911355481131289723124741,171168.393107695301610566166479749,-234508.252545860113901388339392565,295944.937861063556042363496605192,-350072.921770250877289842351616896,390474.327875055914498542464645771,-409651.458123615218360591346735902,399554.715406551705529103340517218,-353417.587486273996598254006590361,269808.925616422899769136068717301,-159017.753603629710356084378460914,49538.4612863955607089876185118558,-77819.2060492822779539408186378800,269532.506312243025424119216576560,-518861.129729307036358640812914001,800127.631230658484643056883501590,-1091122.36472175671241246213138762,1368575.06112632673445292276768167,-1606282.52527392509050276987436625,1774279.57296900038375123211315716,-1839477.09780514177707445648405118,1769301.57087246766030214234729421,-1540841.84537358070537076303927180,1157719.01738779886945765486003251,-672767.932425434101502383452351479,207637.401036117007089168642572423,-281930.170662582695530195684055984,975504.657080303352455998466452836,-1874416.41181638537741409068586673,2882527.09983040785672332130045069,-3916022.18556740354611730129318586,4887655.11568731816023754673400165,-5701048.50613626522063703788899284,6249426.60845624901751682817130697,-6420324.96512306294065980371700712,6111088.45771062008243324979804108,-5261773.92170163293669041695787340,3908874.27323524948425882934264685,-2249422.93261307124579110000187877,689863.639244574188291218398606003,-791349.575949224624147111300152080,2735963.27572838182627968001088329,-5249430.09580296756268049711378842,8055162.64455130604304488972339760,-10910904.3118111627329088259826952,13566083.5386178711787032768793833,-15748277.0854783848376987838518832,17163279.3501358591995835614176892,-17512806.5757184638996336024573702,16541377.1626518657755628614671625,-14125918.4394485267473131433061848,10409997.5598316273449067579617962,-5950098.47925331379248542272174984,1816921.87559158523462909434752154,-1731324.87798915048378574639644099,5982207.15558250167434775332762702,-11465391.9511867898485434725749833,17564950.6076410347619660302546474,-23739965.0658006828668899008053407,29433952.6074061265762171513561049,-34049285.2284601863330221939135153,36952927.2496302554216414725750083,-37521460.4848575997180253790416498,35247245.7652680280667789922374782,-29927909.9975546972309575418646311,21933544.3021224629338740210970364,-12478982.7676326330376139061331661,3799493.59943198761889521647672259,-2967133.41089133622572375211039499,10248109.1658077617115020442541628,-19626772.5487711589262272041869706,30035138.5829407630995347112456344,-40533925.8545145913612294927459560,50160605.4685336767885184763675829,-57890241.6857214305114324736354474,62651511.2498771655108023454162988,-63410342.6674742071856648937574344,59354599.8528807073800873173443333,-50209853.8247057876034305328632265,36667341.3931406714650942918478169,-20800548.9505841334697327223518242,6321514.19369934115968864384362048,-3998160.32504917911001824037701607,13806070.9082679425653180002366520,-26430074.5320373066246023849924876,40421983.2995285280672265074094766,-54507267.2524261721893103926811592,67382767.9236585966766811556896627,-77667375.9475198752204301116971287,83928036.4980225028903709968456498,-84796854.6628049758428507424957745,79221366.4571535831311223847048142,-66882890.6238545788155420128190265,48751518.1173911333439701117747478,-27612846.9085368054092784410648372,8383728.04134851088574933888722547};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<15,double>(double* c)
 {
-initializer_list<double> lc={-680785.069835,2387450.17514,-4652428.45103,7187728.24115,-9662262.49821,11746229.6406,13778989.9126,-13493401.4106,12352568.4346,-10484165.1035,8096991.68275,-5466034.88809,2920276.67638,-856461.606004,-13174694.7299,-1227189.81404,4275962.04942,-8258359.67922,12645634.4182,-16873430.5251,20397694.6972,23760656.7238,-23219070.4551,21223301.7647,-17992969.9449,13884876.3614,-9367986.91492,5003108.47036,-1467034.43283,-22785192.2129,-2208225.37578,7656535.01605,-14685770.1307,22331616.6407,-29622881.497,35649124.097,41291637.7298,-40280738.608,36771896.4805,-31146099.8433,24018851.5835,-16197714.5818,8648013.32397,-2535404.35929,-39690840.1363,-3974685.2227,13729577.6594,-26194161.2296,39615313.413,-52305888.7065,62720975.7324,72317181.4515,-70447471.5657,64244195.2514,-54373899.3333,41908228.948,-28250977.0903,15079536.9369,-4420399.85885,-69647526.1296,-7166881.09722,24684744.2018,-46901023.3458,70630869.0064,-92916342.6391,111100892.421,127630876.997,-124189133.786,113157710.656,-95712511.4822,73736092.4463,-49690862.0796,26518089.8214,-7772643.07564,-123109877.838,-12959106.1972,44535643.7203,-84347945.8028,126604525.893,-166073452.145,198129438.143,226942726.632,-220618328.877,200881957.479,-169824958.433,130782642.203,-88111599.6929,47013854.5755,-13778876.2615,-219176521.063,-23514726.8966,80673467.5731,-152414826.809,228184490.216,-298650369.871,355666306.844,406437746.753,-394812834.947,359287819.256,-303611009.0,233738977.67,-157441928.495,83994955.8184,-24615551.9313,-392922516.031,-42836394.8569,146769088.385,-276762234.482,413524854.971,-540279839.475,642528862.77,732871505.653,-711467346.772,647141950.449,-546662422.233,420746023.239,-283355339.18,151152293.65,-44294033.9333,-709076968.054,-78359535.112,268211540.267,-505028172.02,753427665.039,-983026768.826,1167777189.27,1329941657.38,-1290428395.17,1173285384.0,-990812476.593,762424670.031,-513384977.186,273832863.129,-80240723.7556,-1287619920.34,-143947470.71,492328971.348,-925987857.857,1379787775.9,-1798333189.53,2134429897.74,2427769119.74,-2354594152.29,2140105195.36,-1806796726.76,1390059429.39,-935889883.658,499152531.259,-146259878.073,-2351823761.77,-265535342.588,907646460.04,-1705646675.99,2539163463.24,-3306577034.2,3921745300.49,4455975702.53,-4319996367.94,3925274824.66,-3313179376.67,2548584064.21,-1715711120.93,915007828.738,-268103660.655,-4318648064.84,-491788906.001,1680251122.3,-3155382478.75,4693890412.1,-6108325053.72,7240432051.56,8219158540.24,-7965590141.11,7235798188.64,-6106237944.12,4696424393.49,-3161359944.0,1685901040.13,-493968256.597,-7969203024.07,-914272692.981,3122592944.78,-5860842341.56,8713298429.15,-11332471883.6,13425989716.0,15228342619.6,-14753905684.2,13398889445.4,-11305209229.4,8694018557.69,-5851883230.83,3120587431.93,-914313711.212,-14770820370.6,-1705673815.93,5823865068.47,-10926159840.9,16235912347.1,-21106124508.0,24994018456.0,28328109111.5,-27437638804.4,24912192125.3,-21016177887.2,16160415780.3,-10876848809.2,5800046117.47,-1699359011.83,-27486576328.6,-3192345609.94,10897420034.1,-20437305164.4,30356477409.3,-39445625982.2,46692922281.2,52884879792.8,-51208866819.0,46486140771.5,-39210900876.7,30148880966.3,-20291049287.5,10819963988.9,-3170132055.84,-51330459448.5};
+initializer_list<double> lc={0.000110324021258068172769174932383011,-0.000386347265518530499696860192366733,0.000759199417422401470619715481881712,-0.00120829461022858728922929696960998,0.00172330825680529259923647951025610,-0.00229892046942733801657874469396068,-0.00363068607608132398854658518933647,0.00439864890175654642237510372153077,-0.00525580720023126188002135744383725,0.00623624652603013242383807956862421,-0.00740291376934352838653982117683942,0.00887033100636479740205522029437342,-0.0107881699489283794655397164396423,0.0119430867633935033989077120645959,0.00293373543648549339156803723864140,0.00402155048315132422980416748390387,-0.0140762655845219354161647993974480,0.0276351631680763626082269074394036,-0.0439187813005132992662781878084593,0.0625066404790297751960230988150069,-0.0831360523364189508278688053464225,-0.129944705109398859657047549202663,0.156007989399946465496609287896443,-0.183798915662433955850318586690865,0.213055686549378778115133640102394,-0.242468781009662898772883021153962,0.266498167279376663782374985998290,-0.262637623906894018710778518217781,0.155975169250539845310393230367580,0.105644062099991751608894675859475,0.0983118088690239645567116585426481,-0.343797004937071170179003642696053,0.673795647580357548602148049147274,-1.06795772808786424484072287408485,1.51407836896112521122811274973505,-2.00282101080433949407908325485555,-3.07296390667947546996951560480592,3.63138731220144064754990438067517,-4.17757415512582305575851864812631,4.66423545483844829028411755603345,-4.98653693674476756299691040814439,4.90658280050970487975297913638133,-3.94426128149902202208161922567476,1.65778276963986312147466120837094,2.52563456957318574835641475911486,1.87043238153288014943665235436037,-6.53296797497801504673011334234779,12.7745545177777186903803438435151,-20.1762558758798485181300453085723,28.4601095977408551392879975431117,-37.3822670469428347015013717552596,-56.0325948448324161075872632463233,64.9566825650146912579733196553724,-72.6866649685558954690148095689574,77.8991794812454950690896290454665,-78.2839984337627865417774593527752,70.1236418020207451429208020563674,-49.2542018450081062805605713272147,17.7196787190126769520940091273647,46.6824630599347552404107872485851,27.8944611307774005061057753926408,-97.2948428876065739428140658307200,189.761971515051633629069210114322,-298.531596350507077350756770390008,418.743174685391141917563314234846,-545.782544460831051833227485752943,-798.042041697213191013688683846121,907.254209725483119532594227097101,-988.256473076827963803282697027666,1020.31849572049497293259982940243,-973.919216493530740784103799549554,814.685489746540609266265073761747,-527.306182251972348453153899051171,176.250911590545342917312877138260,674.438697017900457055748480938204,324.043976746125718769797283072194,-1128.66288105615808183221779128013,2195.55540560380797354934122126441,-3440.22880387075516055107508452483,4798.38076151517762495911928337553,-6206.37004934676302902194993110016,-8861.28131916275730932914791425855,9894.39053674951856639896843250439,-10524.8609797382799226764730655639,10533.8466140334392371660802456020,-9664.08381222539042125594714234755,7708.34383973466933802890703665441,-4745.72352594654364520739502001081,1525.69974127119450428500768711663,7591.25342001917582503203615581084,20375.3220412343994937172838776251,-70785.1472545251319365744442731620,137038.575212148352379087930115566,-213177.841470461780953569291112065,294358.713662726843480734270444248,-375652.103744781457174865622725660,-515294.603538293701463864634027804,559135.002096716745614028582744977,-573807.047525453610585931266552845,549618.824580526435513037296888507,-478887.003835384346308727596913795,361128.640201200529819871681791872,-210876.361395519397096697576213046,65329.6504249870784980718399347567,451495.880544879040721681546020825,110499.901480575723015330989539086,-383466.745497208795275334738812428,740898.848057104120270710174368256,-1149091.75435054290906094642289197,1580150.26783697138600096689624544,-2005654.92905073985646249252355818,-2708763.67009413120621746435880787,2908201.72927372718447002625528766,-2946765.44444813794371917286615769,2781148.11269059098737427202956574,-2384093.39663520958092528612330343,1768447.98131852197431978683102936,-1017870.05560789702408649497338234,312365.393287791635010966885954172,2393994.36233563130400239309523833,467718.664838518480509173587893600,-1621617.92616224428999051753279163,3127815.26558104819257499676632875,-4838766.12833579051689048724884140,6630914.74277800311346656802619455,-8378630.10546022235727925710636202,-11172933.8168800779420956146259595,11894393.8866208877566350113617277,-11932764.4246122169332712932363894,11135847.0633710756420264209335143,-9431327.10374937984533189212177945,6913219.31256774676633387842144483,-3939018.87111213665248526833893945,1200990.94825390208291792328351048,9944159.18937656004166204277905228,1553616.40866971849688903068298102,-5382402.49386758232992193246690828,10367190.9805426603736431314446826,-16004841.1193629987377381581734722,21870747.6200663408846867762675070,-27534583.9280344852414177892123131,-36347405.7783988043955639455000198,38439005.6636854371365746577159233,-38268877.2795394368995436691172654,35410431.7297277720998333234754154,-29723410.8031808623553408800282902,21600808.8033224759975191593297831,-12219714.1183110634905917492978090,3708881.57243553416135122600921153,32530553.5277313806038902426391872,4072208.78083312824398043491703518,-14099364.3853086851352406872594018,27127108.0344594547638769189189485,-41810079.7027156770017801043253337,57007183.8511003208817139849905897,-71565967.2440820634869723000303943,-93735971.4169279076155293112036187,98631965.7603289049636771752529161,-97632445.7899991292025153214131552,89772380.7262534811807797818310072,-74865172.7278954972864407646377200,54071623.9921037166852352875378138,-30433707.0433037473388616639774195,9207838.90947079526971311626423715,84252399.1178917707584484768425887,8464554.52087309220404969135663494,-29293847.3953856063879242730993398,56314485.9266216256333138512168161,-86689204.0669919244105266010922530,118003781.731305655626832956273569,-147827416.680925977495613696589558,-192513147.721351940034797458187927,201828541.154737163611342063052577,-198958084.662139201685187741155821,182121195.699470584877681513555213,-151183261.019846168185821901597532,108723885.433448154663365450237334,-60980235.9644785638751284849089275,18409745.9279675803008143034026629,173579008.040798816862813935636874,14009987.2614205818486641249446395,-48470293.6111920485955354163719976,93126672.7905020706970277346591442,-143237582.651259359813567633906951,194760678.366100539910694335731014,-243635138.381143146759225318623430,-316060617.061302252751401796129900,330547394.992108126696626195789900,-324954786.585200362722341650239621,296579119.557649011071670380572701,-245461539.902908626600064078408859,176033541.985190529995001259711689,-98510263.9025968190025762458127007,29698612.0214036918296206353291033,285574216.089864760395760424909149,18520472.9971440268151755773510099,-64064297.8165249170979689735221944,123049458.542063047846362589559934,-189175054.538597742971789805657440,257064090.383903153910507711251948,-321322125.159625655398438614019629,-415966587.140108154748676550846752,434457864.566401712358457934728575,-426475689.682868293488319709574074,388618068.542425343849921351592831,-321121911.571418322830802585785085,229952248.084734444435889748326636,-128530065.896653362840548636028287,38720400.5891950816457733366736187,376273129.093925897524699340193693,2918.94201406046655342380749232194,-10153.1126506311435427862928709270,19701.1234576608232484265757840342,-30752.7438875332273301563259862823,42666.4868723099909036399210892114,-54794.6777831103641338888987361434,-76571.7284492918722772685712232390,84175.7873328052004119657167368890,-87781.5369227124771689699070917894,85712.3303321200693802791512936259,-76339.9784104691562724415739946095,58915.6059803384784721683530438948,-35135.7387831617220532291122111606,11041.8200016453701396031692686527,66397.8202989225649519728370913695};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<16,double>(double* c)
 {
-initializer_list<double> lc={135465586.136,-460681378.644,858568449.226,1629807732.71,-1913730754.59,2091186142.27,-2150058053.61,2091021969.56,-1925588535.54,1673523948.54,-1360201074.65,1014354364.81,349584899.424,-1265147722.21,-666637158.937,-101468413.497,213698102.776,-726651643.726,1354004975.98,2568840128.65,-3015293660.71,3293664297.33,-3385101998.96,3290932468.68,-3029510421.08,2632110049.83,-2138732812.72,1594575370.89,549388050.833,-1994694419.56,-1047777239.12,-159451248.582,346179119.633,-1177001850.17,2192730225.57,4157572485.56,-4878309665.8,5326537343.82,-5472175222.8,5317822030.7,-4893552448.91,4250190222.01,-3452493356.39,2573448851.37,886360944.216,-3229410478.52,-1690664736.38,-257233463.555,574550352.097,-1953229206.57,3638078528.92,6893730525.02,-8085638146.94,8824877076.88,-9062308063.2,8803021269.0,-8097519092.6,7030431561.11,-5709164909.31,4254460693.46,1464852581.12,-5356578874.15,-2794477718.41,-425086576.175,974350531.965,-3311986937.89,6167614970.62,11679485068.5,-13693417224.1,14939026732.0,-15334326360.2,14889281087.6,-13690544057.0,11882113518.7,-9646011752.45,7186322406.6,2473474106.6,-9078385000.87,-4719274302.8,-717722787.111,1683639220.15,-5722307309.11,10653943645.7,20162445976.2,-23629833119.6,25768448096.7,-26438923570.2,25660761394.1,-23585423854.6,20462556200.1,-16606478192.3,12368681886.0,4255741468.72,-15677567270.4,-8120902095.74,-1234782475.7,2956394630.17,-10046957023.2,18701931974.2,35371373580.1,-41438339848.2,45170081507.7,-46325822386.9,44943720659.9,-41292704800.6,35812554647.1,-29054849881.1,21634813844.8,7441461458.94,-27512784554.1,-14201937753.4,-2158936055.13,5262505960.88,-17882015706.9,33280060395.4,62905859082.3,-73668167129.7,80270297293.6,-82290439773.9,79803248558.8,-73292537064.8,63543572743.4,-51537593411.5,38366318949.2,13192044135.2,-48945867638.0,-25180265967.9,-3827020425.89,9475650364.31,-32194867184.9,59906431484.4,1.13170276042e+11,-1.324847178e+11,1.44302499394e+11,-1.47875817261e+11,1.43350721831e+11,-1.31607205015e+11,1.14063450821e+11,-92485254952.7,68832490356.0,23660117017.3,-88083374859.5,-45167088141.0,-6863312096.04,17227359025.1,-58526448357.6,1.08883438463e+11,2.05581338088e+11,-2.40584938695e+11,2.6194890402e+11,-2.68333992994e+11,2.60025938266e+11,-2.38640001381e+11,2.06761920804e+11,-1.67600285204e+11,1.24708077425e+11,42853318005.6,-1.60057445932e+11,-81817195768.2,-12429985765.3,31576068889.6,-1.07262890124e+11,1.99519643417e+11,3.76514298828e+11,-4.40478056515e+11,4.79423779431e+11,-4.90932241172e+11,4.75562479272e+11,-4.36302030665e+11,3.7790326443e+11,-3.06244199182e+11,2.27819298486e+11,78262193238.1,-2.93223157785e+11,-1.49439347908e+11,-22699102641.7,58274418286.6,-1.97938096312e+11,3.68125245178e+11,6.94346133517e+11,-8.12051159771e+11,8.83553153296e+11,-9.04449702225e+11,8.75834658132e+11,-8.03269018581e+11,6.95546285962e+11,-5.63509250312e+11,4.19112300517e+11,1.43935745018e+11,-5.40893277128e+11,-2.74873153282e+11,-41744282295.3,1.08174897022e+11,-3.67400605899e+11,6.83186806881e+11,1.2879961745e+12,-1.50588800347e+12,1.63795687159e+12,-1.67614079973e+12,1.62258031464e+12,-1.48768237169e+12,1.28781100997e+12,-1.04308452492e+12,7.75638475396e+11,2.66304976097e+11,-1.00360632572e+12,-5.08617894322e+11,-77229000359.7,2.01805253626e+11,-6.85345516814e+11,1.27422371708e+12,2.40118080284e+12,-2.80659308193e+12,3.05179823945e+12,-3.12195241811e+12,3.02124483788e+12,-2.76924006275e+12,2.39653853871e+12,-1.94065559347e+12,1.44278749072e+12,4.95231982313e+11,-1.8714653513e+12,-9.45949168472e+11,-1.43609669766e+11,3.78085907103e+11,-1.28390527786e+12,2.3867584707e+12,4.49573191723e+12,-5.25335570894e+12,5.71064800265e+12,-5.84014964178e+12,5.65006034048e+12,-5.17730348572e+12,4.47933981801e+12,-3.62642590597e+12,2.69556698933e+12,9.25011744461e+11,-3.50477943849e+12,-1.76706004393e+12,-2.68223687272e+11,7.10965349508e+11,-2.41411433735e+12,4.487199128e+12,8.44866336634e+12,-9.86986304382e+12,1.07259835049e+13,-1.09660216164e+13,1.06060289636e+13,-9.71592200995e+12,8.40398658134e+12,-6.80228297275e+12,5.05529595199e+12,1.73435763137e+12,-6.58790428097e+12,-3.31349220654e+12,-5.02880009315e+11};
+initializer_list<double> lc={-0.0000860087281154927330045011934109437,0.000301201025858510734060817014802249,-0.000591882533303446538322321858278730,-0.00134320865498405663402897715293922,0.00179113212790711954134309996486811,-0.00228390039394907081688497056049027,0.00282240743783894291166244566491399,-0.00341099702866126080624051286975663,0.00405905867803314663771228285800044,-0.00478408469783848064192513807548777,0.00561754542684551727623189038079504,-0.00661637025132124678638719733961760,-0.00955113537980545835445688445786711,0.000941954379958990301575337563043715,0.00788304289286160393210333247353583,0.0105507782028497156784842108627226,-0.00316067767456515708132912105470300,0.0110643818929192384729906148598038,-0.0217266589346316787153336397444434,-0.0491725156581664245289772936573561,0.0654240581070763248538833253443915,-0.0831654175379937942667271749474279,0.102330133431156454465493106982535,-0.122906342260583617059759583236110,0.144924138523551820576418396620681,-0.168404267442847162716261493284948,0.193162339984405068379429956069509,-0.218079819412784461414601178018716,-0.233822383741530569358935165709866,0.0345384972065130918900279757449482,0.238277549956336707237507460113178,0.138429472024527871227179606151220,-0.0789475674058219179628486691898667,0.276167274570752202114049998282694,-0.541565224336711181573554015632895,-1.21950157185994015386497397517227,1.61585738992148729204491318317767,-2.04238883744249391667899406251888,2.49332190406572719734842006691267,-2.96162516922748192534076775652596,3.43656604693357205562008985293222,-3.89831791706393821147902968164164,4.30531196009115494243338873414012,-4.56401046171157159705297927755671,-3.56752044737193472975790463082409,0.859125770830075222025521467930736,4.46122011386333474502371181491176,1.49349113494987410516072300191825,-24.6793063443296700351956524858878,86.1505777408194829128539604026463,-168.283784155686429501281043662757,-373.516180810901661395586942510811,489.220114391507468447034578606508,-608.762396277500719433887916571109,727.632788749974960678495679977022,-839.788976503121452440368617098615,936.525075755079332869116630180049,-1004.75061157232441020225694207722,1024.70392938390170895800374565065,-968.299453313543306871429554545720,-516.464286734696132858616389227989,265.372233062244852758060138654807,803.256407658748898283263341721328,171.874930847625755957571647105069,-309.648102852781183901604542825912,1079.65687865174778066568463235728,-2104.39170011355137277779406039159,-4633.99189042728149189020679354458,6031.78442654999781631307880931384,-7444.04668359101225373535952364981,8801.73108221297053794552350646054,-10014.9910983315024233575347605730,10961.9763122190703741190059067157,-11475.8459958964112481495853011693,11336.4176514696103444836604904500,-10287.7828385025007768489820377645,-4971.55624675840268006954451047826,3307.55766564289220074865686030936,8132.13423595554541502647421791259,1591.26729538278034773535589715622,-3066.78956814211401908683316819782,10680.8024552256587176333573072780,-20774.1827193340704008112830415222,-45397.1926888612057770434813640572,58740.9694600209562392789455987263,-71934.6256657447648784711812688936,84207.7896738853252297332430930254,-94594.4444084419618433891362543048,101861.324565772403342224000729407,-104461.322961681629832802301604568,100594.548154471037337909582808009,-88560.7947413367515545726935289887,-40077.7948994473957905217334820318,32547.2298648626605339886524277179,67695.9898995032770632102466513057,12538.8527774731860032639998668444,-23920.4062128209223276307075165714,83219.2564199346751364968869227571,-161542.402708219242071757612247153,-350530.246377416051454295108589167,451117.273640292485250278014227284,-548605.101483946225467148539913472,636549.734799874016540282364647860,-707170.643331190935645014244527362,751082.215820621239936482488039607,-757420.848199425846712266923551469,714978.589348326631700889671454346,-615381.776132970246884578502369283,-266254.170267153084693619403843555,252341.217358392664481978771791315,459424.600806288329570342034217624,82113.1590131575938208407185975715,-147059.642392792634665223493365559,511128.778445622184363699890048494,-990428.421872914300408029114954199,-2135658.39362244903378110188399734,2735451.32587850287474716307037601,-3306480.72286225666749107425312999,3807536.96404722162228256252792632,-4190601.42540648122568835006768555,4400647.12903825779810835408619339,-4378475.15957681439759705276742439,4069719.88144619535218137938215477,-3444220.05933435802881669139937620,-1443884.34171376585848084953310591,1543025.27604345422256189141854318,2528237.17351743017817074342852123,441062.185871402833331298801935428,-714824.629385690797790806028863460,2482393.97770164464582291222369873,-4802777.05610156861909031583078734,-10300048.1637678534635189012842728,13139133.0966721108162316575524483,-15800508.3651153072841841471715201,18079680.1284684844205657898772512,-19745839.7007169942606221688314395,20546204.1959843452527509890695776,-20226136.8376560603209612044101225,18577012.3476946621921685173638956,-15524325.9739610851911496714366209,-6362337.67273104085483889584884582,7465221.80680967128143762192875869,11256439.0328918239671229898364453,1930714.45401463360568508960562727,-2759131.09033079858716584583904475,9574870.52762462868414112190796551,-18500598.4850197472097160419214215,-39495096.2671434873540498855595981,50210302.7006161139348209254624260,-60124074.5224861750842790232088820,68439615.1748811938303273040221809,-74282043.9896568886061451366596845,76729869.6370749256320383513471425,-74907361.7374444773156702260120431,68173169.3595012421224280542801800,-56432508.5988522918409612886839815,-22749874.0572872679891752863739801,28700643.0107223863816954458373314,40550722.7476155937318441626585707,6871496.31919343849848106191404814,-8497625.18339264514402285653275192,29471487.4410621459304710055142335,-56883564.4367954213113677433351276,-120980602.334657988123750791785905,153378479.832959688758108961219330,-183032340.752255868355295367853261,207480804.398600665674823924493418,-224082861.464502008761406258430257,230146368.978576844920923934092902,-223238582.264738634423738820931062,201761599.540688133947897449285409,-165834362.359151010734863304234322,-66054237.6671970766144974521053291,88104843.4539216177814107766400735,118375850.237446631006175855472387,19884743.3883730476504525627135980,-20980096.7130229472218197007853765,72729170.6344235506405367160216273,-140256257.990422605861908928142902,-297416905.337501624070479128414960,376245864.280159865593784615782726,-447785904.060754239501407652118001,505961986.145849323400923698264986,-544375305.014050220857783755931840,556673364.560288480410714988911450,-537351897.926909259477820246672281,483146167.266350263758839580669118,-395046860.916202746935782535085136,-155990013.253320757346191828213403,216963769.726729095806848462173617,280636140.162189677600165866395107,46846779.3138963482388813640928180,-66936838.2858704885676605865844245,231904548.140058343471174334942565,-446739494.906659859672910516970948,-943803948.153444818461467519517248,1190720384.41978196014756469387057,-1412409571.63723266115642395781913,1589556757.95997055533089212492793,-1702294261.79080371940717123321555,1731560161.89417243130510185946547,-1661742878.94551085093141826679642,1484943191.70438984409483762003943,-1206750740.72315505010486523113241,-471731994.761275465750712521845640,689968300.417857515228819630748934,852471948.214971990145014060471155,141284437.425037785865841797454712,-1.56159944029677413485531929915134,5.45733698276860516740835990227317,-10.6824314344582373318953419129530,-23.8929539094519736922707204853210,31.4863450872610418949737600627377,-39.5033930529018667497513890421409,47.7395575455891771581024061722805,-55.9200905215873326659850066314911,63.6282727872933491089457274803796,-70.1728550016044841010498999366720,74.3456019844931959593612592018640,-74.0268660301365524794092790947444,-45.9471119443570340311325300139603,16.8991685404294809498472330336197,65.8139917162779577494607733863104,16.4593244865039456813024165795452,-41697253.5153719175283791080522028,144495997.491073630671159523587848,-278477997.866560446449488245621132,-589213471.565781203578862857748480,744177939.206935267130206644631902,-883917523.526770120543080859876424,996378571.203500598908627036540315,-1069042083.18491397510340106670582,1089727989.36490741571409605543409,-1048225183.15609936593923833110075,938995415.809294777113379316295467,-764936807.754069966229328219002141,-300210159.346365466066523132205849,430373303.001562735991379118814291,541561630.884992855357607288146681,90009633.8864807817457627088024306,-87011219.2153675801239625306366056,301412944.805826195866479295487257,-580500275.641628312583175040591987,-1225378681.01021419366512552500001,1545031075.97700058648731218006712,-1831337459.25773716918702767402924,2059221161.50832995565578751575464,-2203025012.48017413373374692804595,2238322462.01850696158717311375511,-2145370224.29480687162880810033149,1914587738.17171523358583738412445,-1553877495.41825312345105428100196,-606142008.190311447020855655051564,896238209.789246793217325979798234,1096391674.25986529342545756818016,181437109.972702279064207663819927};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<2,long double>(long double* c)
 {
-initializer_list<double> lc={-1.44337567297406441127287195125489,2.65470053837925152901829756100391,-1.76853598869462141624860782523333,2.50218995346906875953341290652353};
+initializer_list<long double> lc={-0.116025403784438646763723170752936L,0.327350269189625764509148780501957L,-0.827350269189625764509148780501957L,1.61602540378443864676372317075294L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<3,long double>(long double* c)
 {
-initializer_list<double> lc={1.00000000000000000000000000000000,-3.32379000772445013110755923986944,3.43649167310370844258963269989120,1.64959666924148337703585307995648,-4.78568501158667519666133885980416,3.75514084041407928684859596988032,2.94601792213815217620118779490752,-7.74471701776623530154738625169971,5.25791292600037724175496741484224};
+initializer_list<long double> lc={0.0357305491185137796325895223310224L,-0.120654436719994313336885204575005L,0.197625552980738845186369142265742L,0.488099303946295111574814047249422L,-1.44444444444444444444444444444444L,1.45634514049814933286963039719502L,1.74681889146370559925807530217870L,-4.76823445216889457555200368431388L,3.90871389532593066481185492211342L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<4,long double>(long double* c)
 {
-initializer_list<double> lc={-0.135307244904688787411431296975496,1.36140068465488733668292376422488,-3.97544968197561526882229403937933,3.81878808642839043193882832768355,-0.537612925375784480135853564851234,3.00404135671062937217916717984556,-6.49890590866445442087731334533293,4.60431971202729624837725199101190,-1.63717031842245700354336803004939,6.84757575688715536726519348367821,-11.9249796863829679117446327133569,7.12227177834886743621767783385215,-4.10029878721799225771340611081784,14.7751596370192998341951206152680,-22.3365646864978729902361776703725,11.9887073780806096349127195892873};
+initializer_list<long double> lc={-0.0140346284950897005959145487226678L,0.0486019372325736605545433259883532L,-0.0933839103763425827143062908985582L,0.128248445841832335143704269186468L,-0.272064374692445653761211059337587L,0.891347334798628067277800271774688L,-1.45211295856614643632930666872870L,1.16283947666753589041138457673998L,-1.72957768745573803079949121756964L,5.38610471728616535857004806512372L,-7.73754858453248512569968714073172L,4.75101207649448593033046317272927L,-4.56224020456185125738444566558148L,13.8227231424440092340637978390896L,-18.6901506603140784480851803467414L,10.3602358782289467590178014176797L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<5,long double>(long double* c)
 {
-initializer_list<double> lc={-12.4080892450490375587308213492748,33.2494963343543122595047165192804,-38.2237939376551451088552478458438,-5.02873063465664557784727417127220,23.4580275600371839895298134079607,-22.9802116869279084515788861808107,61.1304952922655617531320397240784,-69.7821321606709158906772005941420,-11.6080506013676378348468198236619,43.7879095113950800304828916374698,-42.1725807054847527822486163824507,111.473716235233254622573504718593,-126.392162976933262911255515008908,-22.5124628922089691017572401806333,79.9859687144913883505789216338612,-77.0853906901439939750903731632864,202.751332845047950535923907231318,-228.757413485767381207785815917637,-42.1641229898811247987888566088867,145.555909669596589986031494575773,-140.652179469191843700916683271813,368.574355005736335933984903522633,-414.483182984262126760100116786341,-78.0638446566238302686280263411386,264.876374636341610152333990318813};
+initializer_list<long double> lc={0.00652144479767033603458478786838596L,-0.0227335607543153515066272883718878L,0.0444414392553407311553878469766995L,0.0889827558943601592154474497408803L,-0.0703020021623878712976062353637745L,0.155179892357417469217492329319431L,-0.526655446937845518839526256761459L,0.961216101630233000001077634866636L,0.909270151350970104638362745587246L,-1.26824535345361660053556366336196L,1.44390723572685266277036931710423L,-4.75240552762355917691837618364563L,8.07555555555555555555555555555556L,4.88725319629916104805452235030884L,-9.15431045995801008946207103932300L,13.7721179149383334834129924497389L,-43.8153403399377177401448626597679L,69.2887502379160487368233931475517L,30.9144597036483831702009515757447L,-69.2068975935957156538936610741178L,6.26504391462792532449204820507234L,-20.1684108729346325976484317916734L,32.6744811100872664209090302594938L,15.9680017603360459407170761998645L,-33.9698812570637635429515656624072L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<6,long double>(long double* c)
 {
-initializer_list<double> lc={1.49639906743931150170865743165221,-4.95180935208180235143946990968911,8.16737188579422643880960262595151,-7.44012682160895177207402084354309,1.31773061430654815259391059778265,2.44419984904909201649516932059883,3.46885805124527998912589880976624,-10.9780747982168482045249387497191,16.5595161235581040943189567698421,-13.6754887605368487943822582992659,2.90311311209734720820431537689784,2.25641156056538447906452159834394,7.11511835867093589005360090792946,-21.6456349345666900729344518014013,30.2555924942497912188853069793345,-22.3416240113366871629470601435484,3.47355841317324175691484021542290,3.51124117949273710338609959959303,13.5351598873204907206130851821985,-39.6617231803398217698073670078747,51.4704918804032815556367028451887,-33.0427203786641164534802601768582,0.857972597257570309916028931380322,7.12633339478597956084901084518200,24.2342876134922468623845858854074,-68.2986361470160227079104024397649,81.5084716482095788888727615984547,-42.1205642015401486742305911687352,-11.0450057011243979267195579430256,15.9575705136612307359928024704931,40.9593172785713586917120193028690,-110.308373491478239521311464963708,117.679699400637902139903279302536,-37.7198023312642406115052298157596,-46.7864069848232444708783542820675,36.3789798788849947653870930332267};
+initializer_list<long double> lc={-0.00341394425538142465613682525142397L,0.0119291182972293007582919902695182L,-0.0234025868099594206691003260606437L,0.0373587315717223765002828718328323L,-0.0537473916472563477528288362578741L,0.0650413157420695019133403482205939L,-0.0923822056569996394256833012541429L,0.318198817689929340403576172702096L,-0.603663185145383359852154480021543L,0.893907302501738570555194891596283L,-1.06262730565891896303769833710460L,0.715961883036501794526065256571956L,-1.11720202563486637373209764337169L,3.77583222228577148767870401485267L,-6.86935799353278576453615837419941L,9.35420776402746153289973943728861L,-9.40195856345045512212170738472487L,4.63916900326327578549626908931433L,-6.96303950414536163140475046149457L,23.1552095203422834086130057936809L,-40.7197958241965333595638759671383L,52.1512023261408267198011205931426L,-47.3358453397819162420370639046002L,20.3315784146822995589068148072498L,-23.6863879692891412066633735358657L,77.9033153733487966002678635822970L,-133.982834600083444458898120919335L,165.299693593816204311009838794221L,-141.976851735177622741297860724472L,57.2736700306183397524123526006643L,-46.0401413232628753124793690635633L,150.534618196920251553774541848920L,-255.915050270801351121657742729596L,309.893964167605195982515187061306L,-259.387378542494678958531925497898L,101.880222529135033870285459158078L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<7,long double>(long double* c)
 {
-initializer_list<double> lc={-1.91120187840706148059343153339619,6.65652759190947097926182607655844,-12.7292168648694984662764731379728,18.1176202649195974587105791611953,-17.4616733790926634353730548203877,7.96098671627692504368896267036905,0.392403593091850638318496741609958,-5.19865835727433058441028937337961,17.7863259875997465506681553498387,-32.5093393347882978136644467302933,42.6183498714162914750919707447822,-37.9642372564774438754821752867909,18.1682283161856404297400910069268,-2.37489943225972140043994937826719,-12.6924582123093563087501515401057,42.5222463481699544055616587560432,-74.5182862339952554415153487918320,91.7241851083633573607985030566396,-76.7869482599494432441820403305810,36.4779223930853985430329998272872,-6.36722877294198861104454960548662,-28.8016213917061138053390452891089,94.5845579492985955875880487692287,-159.757941566257764882047123910280,186.855037156516665445560863605916,-148.584647226412484336661254556154,69.0276582947818295702864174410238,-13.0466093395153273856608853441942,-61.8496467489083919740734662853765,199.450073684103533001519499240391,-326.127694831069676842085164319705,365.115860088233912284775986636401,-277.225297295451381351587775194686,124.642877080461840288276012062188,-23.7793975571716263282331655745455,-127.150589513851883135544067747503,403.254742674680672031828264052813,-640.329586138398034934086416724497,688.994905272083876945019711555962,-500.006854822796777795114554277379,214.902196977754856228751627384792,-39.4710270061112237052768425440148,-252.155218350409524792213670733784,787.350624132017907905283699702557,-1216.36742044747276254645881198231,1259.72396109181852482064404550487,-871.096011390937797024743593539612,351.306654629544856924200356477215,-58.5922594641566066942375759823070};
+initializer_list<long double> lc={0.00195167398264792470860349423258070L,-0.00682659146318914183158035278065344L,0.0134060237950117918528892043168009L,-0.0213962661281020484229333903808795L,0.0308564044943191594044178003423514L,-0.0420384434096399300813147389774575L,0.0494932425575729821068231412233317L,0.0575130998990241244609721857722225L,-0.199496718821031730176363657436179L,0.384661662228330446559751389478163L,-0.591747389882069922729876528862420L,0.788708476307197631009618792143725L,-0.882643153621393111347275129744342L,0.572238431090245342291240562008436L,0.837700286372255931344122410255070L,-2.87075804888484737387393201615914L,5.39475057055504249879194004814832L,-7.90633779692677158148772237769303L,9.61401117840670567889324620032385L,-9.00242703999397618228137802942059L,4.23013827478289244516042055850703L,6.84630551858692819987999211028270L,-23.1913535012659468432892791584529L,42.5575428038634545536722217334299L,-59.8097959183673469387755102040816L,67.7740974934329500727509627826178L,-56.7485022632344858585614775151827L,23.0717058669844468143230902513868L,32.5598637346812057150152631624788L,-109.300089549447266436289476782269L,196.993100971579080575891823428568L,-268.646472536324198539478043361219L,290.639951944372446611237383155014L,-228.273629728028365027946026522232L,86.7301977388557956850223801256966L,93.3273238331435262735313741094964L,-311.391037925695051729897426821406L,554.621820031140503200989742754529L,-742.092428457316066101909534560081L,780.959006924487439132581331857458L,-592.237743875021628223040751200333L,217.683825062060974667677196246977L,165.926871605140432543128319385116L,-551.819157152441343480193176532624L,976.709432014992694158226619724400L,-1294.03116229439610420785572023702L,1343.09885864494977750802814321874L,-1001.62067118537394711632578908104L,362.710382323299869857254698364455L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<8,long double>(long double* c)
 {
-initializer_list<double> lc={1.89420696335189271657828654653861,-6.74595407993036488209951062870800,13.6174313879350418040936549908116,-22.1325531490283795436868444953001,30.1354696018019658502034889756472,-30.0535602846122435940536115165028,16.7813564646508372455003455249718,-2.47654183241751771237758983174295,5.53044980216853652419590406662562,-19.7123802550751263836487899296228,39.4552306841891380568621187216173,-61.8202807478371281601911743699649,77.9162549778229211076493331916534,-71.9170865716099859533199335243895,40.5605506613702209443694904285352,-9.49268636734022096857912912214024,15.3636588680378007070923695084634,-54.1230023330262407141346911644396,105.511418085609196011982509718827,-157.829742274905696136850531422093,186.583239525287085530367282552769,-162.508358369306670570515474868443,90.6500150975412720744334356732129,-23.2936433611634987137940144645674,40.0312626350487827169113069068526,-138.963091717749303955679340327395,263.310898325098970109714813246196,-377.485157225711351710788662668533,423.961919653899505365296310308562,-353.320799779991340818918670597229,194.472041372165191939031491810626,-51.7366189890014269411866892230046,98.3082610019279501589859959267112,-336.410045088019414880440286648268,621.002616500503204411870861288617,-858.383104949994456155016957800032,925.006181742545133267956989671112,-744.496924143510302187173151808743,404.381959444669130815027763903453,-109.188285177905293839097960112073,229.685256060390168995854989551005,-775.805079807910415691813090436842,1399.49183211132587677399424419371,-1875.32610048063117680663992102973,1953.09767698607603208624092346102,-1527.59865050750421049019808417344,819.073480823665014023919769799621,-222.430881404536315490773459538561,515.019542667772258585894866718456,-1719.44701491993249769633859315472,3039.71234666054242403153643714144,-3966.04428445512004427301545883963,4012.90466143223379746541841606209,-3062.61683487494962501114632454293,1621.13250704375359254959145124682,-440.496988744971312113260400252528,1116.20019081785447632171833140071,-3688.02824601219497787439701475620,6404.57927458974619584256433769973,-8163.93419172268862194770757436753,8055.10446748427746148256560561915,-6014.38469250793627714333948880182,3141.79531687395626580896621586568,-851.185828494625477369134849091671};
+initializer_list<long double> lc={-0.00119350642767238450998349774899697L,0.00417676372515963070144156188231403L,-0.00820526119705802073503177577065736L,0.0130843672118590904671224927142510L,-0.0188013413560626824369959060408324L,0.0255414224062775280288636963533775L,-0.0336174083056080214116147035241798L,0.0388700356943367440544176978499876L,-0.0373138079156879085926596914447089L,0.129909388728074263680015060144702L,-0.252451397584862700429244527152503L,0.394491354217408524535289441078190L,-0.545372831042616060147091648088044L,0.683155166853450199263651094783358L,-0.735694989916132725209825898906508L,0.464943877953553037104089201347599L,-0.622439099950835005765918599232633L,2.14974362252094210297287412443113L,-4.10919911211519212565314628777712L,6.23372060828283199430070056898120L,-8.17556715568052510563118748871305L,9.29302934712608715898567134219665L,-8.31399164602634227693843758178157L,3.78193723088486876482057439730077L,-6.25618632836890646421906968334647L,21.4277572988305687726658841880052L,-40.2779190113562000248067863486550L,59.3677335067768245235063083117652L,-74.2508352758823841130305651832353L,78.1445121417010282427795219541434L,-62.1017578028235250744045857312845L,24.3549781498747692350395544214273L,-38.7231341345500867095212701311282L,131.684899346116041207404322279828L,-244.079571853798080402399035306553L,351.522487971727497085427368864098L,-424.181228444012403299714954964449L,423.581931379524328001693033473530L,-314.022346373078578981587434455399L,114.808679429319108001167708311254L,-151.157899402357500787796156473099L,511.271159919897951456161839888640L,-937.821922199181352517354960692807L,1328.30547727887332349878583516291L,-1563.96189073725174662882744496173L,1510.18471660664923909760620461270L,-1075.35570439101367166182070996678L,379.298829129341922036154261954756L,-381.239626231779005917093182040994L,1284.83360156263025791551826745397L,-2340.56668049353229088519081170898L,3279.50599387306582340252331852451L,-3802.33905564394724503361228500378L,3598.55542038604993297418425172188L,-2504.86956847480332133332841438642L,867.018248261022662246794632408046L,-633.379536452198309548390373583163L,2130.41753794784516611998202637696L,-3866.65324921049183037857052021421L,5386.96586012084880916757446528712L,-6196.14939486832815359019214800588L,5804.91177208058371663547262611837L,-3996.11167472521508154844826669670L,1370.97883003520445125841397115178L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<9,long double>(long double* c)
 {
-initializer_list<double> lc={-1122.37853337868513288907107645526,3472.68754317920871035372398717132,-5504.45857587937396403055263349257,6520.15683125366459336103590739386,-6431.97481547377991062193825459155,-3953.50621672641479866707490786092,2206.96334711661149238613812925524,-660.403803910164190253513614032616,5473.93014369917938731633467451105,-1914.77786609897348069500567461242,5932.53450524017251620404172908804,-9428.91945106486055957473113593322,11216.0748505927621176994465520385,-11125.8798997027027580283018141203,-6912.00810877488854135449086463154,3871.70671922256012031694091415844,-1162.48089933961936452638348509672,9524.26619652708966338037876921974,-3274.83030100604689645901078300630,10163.8796248716098095955460530782,-16207.6950809326522794995892264033,19376.3029152507964379268457398588,-19340.6549967110950566737508912756,-12151.0136568717757634013558720536,6829.03899733875340451801297164452,-2055.08098274567793790800281634289,16660.4029888071800668455178466705,-5619.52492913534138380828473772158,17477.6969539292316746784233927286,-27980.8781111812526736951798623411,33643.7420889839618624080658745483,-33812.4379163001052065040276913372,-21491.7442429287831075796020230558,12118.7108868263514132987279902107,-3654.13234967576392736454480958414,29318.8339235766620363214791343809,-9683.02778741722783449462849303891,30191.0984813395516843831379764801,-48555.8620492776077813494786993552,58758.7621201311605941361365818662,-59488.5400631806917893939626024530,-38262.8625850438147421862613112536,21645.7195289864625526298524574780,-6538.68878769950693201587119162956,51933.6175770610834731735549177893,-16768.2775095437257779376737642712,52433.0530607269595290529903076262,-84762.9436219882766539763101371846,103294.652424145919875800996872518,-105386.284585534603977922480209642,-68592.1313721299725292170536960241,38924.8891361274873612267835585634,-11778.2331294643809532057729952861,92635.4588314248338888971540701060,-29207.2223989125978328169323534163,91624.2219838624851900101931442980,-148960.586247857636814125942941953,182886.590426046587476998603317927,-188071.357300443331412811009728509,-123838.091089782143371756533222059,70484.0237189235988262950232282445,-21360.8747190655853896722477930341,166443.455185077615785348597621765,-51210.2317156049329952437533915722,161218.510225010765418006721443706,-263703.274242517254966817271494801,326284.408454062978778420779941379,-338210.338806811977476895279565946,-225193.491246412638640223756123770,128522.371261141512706899001074278,-39004.8633662451587451551833800248,301297.051273118691583011497017185,-90447.2628019009693795394503462075,285824.206502260230485150510192373,-470505.856564211773755570665568190,586777.442858425078030572164964192,-612990.305674500963362393216828098,-412443.878277218098880475480310091,235971.359584509805484130827900914,-71703.7225379283423225298559933560,549518.144993898378325377833743447};
+initializer_list<long double> lc={0.000769678415406835911756154417337423L,-0.00269427691466793288467000657421648L,0.00529369763516924966199842019946857L,-0.00843584205052797896671462464259941L,0.0120885323537441465079334339058199L,0.0213242638679170205119319732841448L,-0.0274192882464948060320442885444352L,0.0313085092480419528124317867359531L,-0.0163153940624015324404109502333091L,0.0251097283558809062889770458426028L,-0.0876023082701438632248814901555844L,0.170945428072305474160686327590429L,-0.269125236645882849213102660117927L,0.377503612266014208357956168883115L,0.589168803572804870383640772448231L,-0.618134595181438437464141228628787L,0.383749398700612920313566963510484L,-0.489630384533471126752416793407431L,0.463538812462885463774951946902853L,-1.60835432947341915935582462529846L,3.10413957317803154565968622838163L,-4.79478459844505392598432940669788L,6.51308103677824515651026210483692L,8.69219732675818688428961049291914L,-7.53743934140722707543049162590331L,3.35190765766392733579419861882201L,-7.99097185386587142391241475363363L,5.47055401597142364635221311593707L,-18.8665167597269781014813739994168L,35.9782735276904079567478133139949L,-54.4662448390896486403113411321130L,71.6342379583766066188974353800129L,83.6829138438464657724530163926982L,-64.1582899558320003499814622274222L,24.5419790534833234071104568515221L,-83.4790335564215047743060267025349L,41.7959763814309658114234241765598L,-143.343079295769403279980736986101L,270.410279753703810622176439148231L,-402.208676940299900427884115127106L,514.894200050390526581002771478962L,545.881310445824554113782910401558L,-388.984162778820252834263647815235L,138.530337734685295078052300425110L,-576.476185351145595664309345701978L,703.509795328446379805804594232979L,-2393.61817562463836138336163508488L,4447.40297464480343688033084702806L,-6458.62721703190728097524669061401L,7984.91353927345366586653930022734L,7584.45454390634360825833120426549L,-5041.32720705002079422988088742103L,1694.41738413990386704831639351606L,-8520.31895187003422607217877513034L,1606.20177687302522343234788434240L,-5452.45058398302515811760121472170L,10087.3350417421694632270985135375L,-14552.5345934307791904064106758475L,17825.2969772784237360182060340329L,16483.8669746099657776692842301151L,-10792.2536428998276345174560967880L,3585.96799507156001648865768362840L,-18790.5119297078489158969766434052L,2529.84456400434482896448884575250L,-8577.22987865460946768660191838288L,15831.5922052461709662469170157115L,-22758.8503578480985654543627960685L,27740.6595067952412812350666762045L,25302.0038599085400361507961056691L,-16441.4076365940706449393151657112L,5432.64999945479919256343300851204L,-29058.2781821925638140355039835856L,209.690687907275065735209450679340L,-715.884574678992919943115410817265L,1338.74444824743738655761597666135L,-1963.81749240091691993355312388632L,2463.13931709434922554392438116673L,2443.75629237554464386775229537129L,-1667.22668227005978779340193253535L,572.056293053004549193433739596585L,-2679.79616261593933876334610722904L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<10,long double>(long double* c)
 {
-initializer_list<double> lc={0.308663498961631026031881865242030,-1.29519460573904943059833301204681,3.36383134544788852438529409244359,-7.46704170044427746933960115448499,15.1437435756946248189634635449127,-28.1149391887591556339007816076186,44.7273120243530286916403110123634,-51.5468873805166148961187150677284,34.8175242682022478269417410442943,-8.92396510145890931804424272341933,-1.52106932316001656932644627222569,4.14309699845371759042237492965208,-3.67385821192568772370895218239498,-5.25448732421518124189362989691954,28.9574203199844939428757685333244,-69.7158024026765904996763945666390,113.808925824721959721824339102807,-125.650392502351261417690115156468,84.3362434533681409954913797456249,-24.9169449878014075117731344672385,-5.26633494681142659471648119129946,14.0368589575309157022481604922877,-11.5048220160715032307716640923302,-19.1837058142913483836687343384099,92.6464892649257350052048396786868,-203.805901381860080905538160396722,304.096737468838014740891355954222,-313.084697415744701649690745096602,204.840965825993155812373419194243,-62.4290389158604040865189955149818,-8.46011269871093486352194047763295,16.4702023861949795207766402014867,13.9265076841727536915765470666095,-123.397194570246125519243170882719,335.075694204977653061339312382972,-610.239318307469666369935085933951,814.289832541277426685848972431508,-782.039663125601240519034248168020,497.222850089700272049617700860058,-152.585493914559652773335371060707,2.85784472550783551917547849417534,-43.8753696339561295210592034975556,200.987582635969955580020905860345,-554.782865357743737530636623746483,1120.85134677455923251668003085761,-1755.45047972129367083603615962384,2129.77846410861009094504171277803,-1928.32159817453391748064265601582,1194.24411089397690238278884452828,-366.075644610117982120052424655885,77.7416181475056337752960580482337,-350.002291010293233944344670884804,940.823596305963446328250098587337,-1977.78018208407358392101455031970,3401.01353213078732973952488829011,-4787.03644976452766628704488351170,5394.40129008342807746359827290781,-4658.88336489919222727529221280239,2821.43834788203439830286633420178,-861.535950370525629430105676132539,360.492913314043511040813650075515,-1423.92811399765419831489307341748,3299.03903312874653623889348398743,-6112.10164140015418317892897524908,9519.30549545402670297476096790194,-12416.5342876240907789621454443256,13224.3365873405392224373807179247,-11003.2836784145556791440616748530,6540.99445560036367116052969209892,-1988.16433762081553280799483059560,1235.84509505230268338200809262116,-4630.76915849990167661402604148850,9979.27495264787796926807251645398,-17168.6773711309567708413919324494,25013.4235244642024188568402915594,-30849.4547947818774616981834599881,31456.6605104800963565067233180769,-25411.2563894491269343951676599564,14876.2787363621865328715632402732,-4501.18644684681692197554071357729,3665.76412838323097308358700204842,-13337.6168579216587115105569166796,27506.1866443475331078820192421684,-45044.5026382851341258526643183340,62547.2188502458861947875407496028,-73924.9286459727980822982497866117,72845.6222724125375283222912651760,-57467.2199843386587043422968211126,33218.1637380880397557633187350058,-10008.5626471046149353832741235895,9947.44870156147099682116899706432,-35502.9301050862728476065450171737,71045.7171227982398663692077122774,-112274.005155216469195745764552298,150333.185554406292572119478246475,-171852.487296796822008684905431833,164767.956596840185044710217266846,-127498.319898787130754741663939841,72920.0349227832179139832007069631,-21886.4866025216127598478375161925};
+initializer_list<long double> lc={-0.000518104707318547937068146705387434L,0.00181392190440335864461086611315926L,-0.00356422469281379996578680091936860L,0.00567724219811610271611171151358992L,-0.00812109314230425887400701183926098L,0.0109121212859896507256497138276268L,-0.0141351332683048790084010718662932L,0.0179892641076264154812283727290743L,-0.0227507392782082070169006282679403L,0.0257434813342283051955809893725742L,-0.0174450144252191359356784739559987L,0.0609373923168175505235757698716123L,-0.119195433767678058331125800197904L,0.188394471256071221067530853589477L,-0.266044378998258661061158419695370L,0.349683498273390153814856957648621L,-0.434968815676136838741085497923351L,0.509084057361516184784825740367651L,-0.524275974342676810229886184834171L,0.321298514657682138742096710917688L,-0.347960243223355405602483133883732L,1.21079560577032898946055248871180L,-2.35041895826223508357519103278400L,3.66784613664140172496766690723067L,-5.07377733678889930980334017197934L,6.44719946226644011029174342490652L,-7.57056715994592216939912347058142L,7.98736974005036494510264167299951L,-6.77305787343110640669043155943943L,2.96286584277347040213080119226200L,-4.66026651204054991345035070953340L,16.1438586522071349252105113578314L,-31.0661217418507043782805823000937L,47.7877098180535286389940291771356L,-64.6380810179221636145190371493636L,79.3242890423535877651842115486871L,-88.2101782244964088572348263280633L,85.4699953825614423681275632299197L,-63.8604465547221247989469353575358L,23.9925434587916342695157835594332L,-42.2177304829527569137762715035473L,145.615440306601892289684403460710L,-277.879751270402832912637945098845L,421.744230788211394694081167330238L,-558.991908557320827995236225267719L,665.792389928299758951573637657383L,-709.035656608493476701894964897188L,646.835103935194871138178895234673L,-448.028252414246520055397583477363L,156.591697205617681899982473561094L,-260.467787247245836013301750208895L,895.017536490359322962601578300195L,-1695.76956953096396867369960510781L,2544.77485161902484368423656241529L,-3317.48824271489953248266221803378L,3860.08746435261322647387331375460L,-3982.30205890443844234460696735678L,3488.37867284833952946444558457862L,-2308.44569554574582534833119461759L,776.789265802447497882887109276716L,-1107.96563542775515307344963373553L,3795.70256420803099165231820416336L,-7150.77559806420884694134706560501L,10636.4631142817782273820776326426L,-13691.9470989706754336269271419875L,15659.2065814633472750753663271577L,-15797.7577974004322256547694362860L,13470.8928824287776201902343612360L,-8667.46256052697829580432652948758L,2854.36024570518046439622291487351L,-3296.16087879887439239555956322637L,11266.7031675048198393452621759142L,-21136.2365895275378386452439648112L,31236.8675150144315018039753915659L,-39846.9671081219157811037491540952L,45026.0666827869812327560309452000L,-44742.0408609373435454130690620198L,37490.7808033978268082417787737395L,-23706.2674002830102374131781381076L,7708.09437374877192502686975952291L,-6948.00941898171159342846207716449L,23713.2296598384259054964461743856L,-44360.4270014842742740819391609639L,65279.0231259243774131066093991484L,-82778.6492506086074292137909085033L,92813.9207705831839030605373734714L,-91352.7226453320419728506897395202L,75730.6801308867464494771754607797L,-47392.5287730441877234836445344942L,15296.4159339014338141731240612052L,-10481.5389908286120282850247719901L,35743.5099493688258151777903637315L,-66763.2260331012729397668761310464L,98019.1104600906222492762783945880L,-123900.377803982412598754856684342L,138350.244759227338300133703458255L,-135494.595525285291848136126888178L,111705.545404860089320413316236228L,-69540.0977681891276340581577580263L,22362.4125011040999498599927627863L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<11,long double>(long double* c)
 {
-initializer_list<double> lc={1.28345332952758638472288061054870,-4.27998592189246821868579703423822,7.59540310132982248202445534335490,-9.98511988158930735688704814103022,9.64315306442921509382222921834109,-3.73259896711843755102743414595024,-11.3877379351042301783325295897493,35.3405245192025745190283676696196,-51.3824872960459634688807488599685,38.8781588538839926989489633801774,-10.9618771956958129011353074516667,9.46855400714185898488325952178676,-32.0195893684608126926094452117956,58.5099602935733868374666854736711,-81.5126344764751339253072628503265,90.8904633696954667667601458004572,-73.4833239414790400405967856236068,20.1397550093682996091618900017761,55.0922277423269191366197018516891,-102.260776727703517546480457592070,81.8653510460428483581539615826271,-26.1790420341875388281364518924191,34.3884653395326647045295826763132,-115.615894779967058778804072514129,208.794768527332050442446429740071,-285.272151778686369266917924027362,309.624966820755386297855761414213,-245.293015237485983980680960011360,82.7160656156003978780546512910213,117.368627411720552656430239515185,-229.778103816755236050049277015067,184.536351625756306150145103173708,-61.1257417957347417038799491557245,98.1642087044809666153011777142133,-326.845019291852074844546988125066,578.987007651069395956124102015683,-765.920285624104942237323690568176,789.287057294551770149674884561639,-570.306499382819969209081268434451,127.375115412781210001811354097518,350.218080115231155203588280168738,-578.398965784749717693957375289188,446.040533667407034955589715059274,-148.340168050881728306592539339857,242.387267698402354685457149516223,-797.053187627089960370490093348008,1377.14428637131384619061017580381,-1744.67226072033933326779021593049,1664.14867571715485488836209363398,-999.371664152259082336553294386942,-109.975135997096613691374995900275,1158.48291481260314480300479308183,-1544.72402364900957359043058313676,1123.75508258960195699197431385103,-369.910829782762456155496950710708,534.715125331020604690216436688136,-1730.14242784561768581350336343365,2891.43487107758038662995214518402,-3443.39577960129826069157639209579,2883.59356477478899424394870243484,-1043.71434622715769798887599931306,-1559.52460031363836346566813882216,3697.85201817331709029131398747340,-4167.09252459750024422874650199143,2865.78391916326923340945844525493,-929.331967017572789898170185848028,1059.99977057688228527850175406768,-3352.02194887872848328960360255806,5329.35525135131998837772759463773,-5715.85605146951640499154079492212,3548.72722732407029681302069507190,1197.39105196781147592684027661500,-6993.67822250038438685361991863175,11043.3416496017877201971492641257,-11054.3183018267922725574060781839,7255.09916049836714746123437452386,-2317.88548181722775502590137011911,1852.21199940557377997990283674517,-5637.00197159849696870547564971453,8173.34866548751666571237586307839,-6841.49639920781736675770050122247,12.1626382976842242870652030827970,11586.7893354497751508898874865886,-23934.1825885079552404892451955567,30966.1760813318737265521894653051,-28538.9966541228482175531139894932,18053.7852301434253230723709446891,-5692.66002711195394365424810140268,2648.83579595469107522468053115144,-7388.81487939947103075880702225140,8206.57220819326676144272419076572,-135.922725682346782672537935672878,-19094.4939848027236223578348313847,46264.4698260124908354192614131596,-71561.7634813680661992011453304126,82345.1278495799800101519031708294,-71555.6590941751967093944774337891,43991.0849982812081634601762105666,-13719.3140295823967081982997874904,2170.03577909641615268507118864615,-3628.42589440264810496155405655121,-5845.91594461132273896165459115946,34807.8356074572550234074719325037,-85141.0796168832689768154707794604,146658.654494340123776337488942887,-196651.578540822095145685223960773,209626.444936447962791734361911676,-174478.586821245263019506660357624,104902.908767890774274461504876178,-32420.1813325788608478130673345233,-3791.10948404625746765730409545708,21198.8863785728157157296974666778,-66862.4933941434517056692975492409,153553.395660651827239907018023886,-278611.852098453149398535833869695,414080.236040913445592530257469735,-509452.248331011747473182990506778,514808.611701425689455612479338871,-414803.483334919804313513607250947,245049.163905091856060132231617549,-75169.0046370535616281162613019829};
+initializer_list<long double> lc={0.000361297043234584496565387580589017L,-0.00126504832889442978476970374799102L,0.00248581273357021459110802144257397L,-0.00395830580267891130937836093518687L,0.00565580193850155613295546981303694L,-0.00757817004228392468681727259448701L,0.00975836945642499890808900328215281L,-0.0122836480138987212805709477086582L,0.0153354298738500653804031022440023L,-0.0191588735730566224133420269303785L,0.0215330056422026935637883269929179L,0.0124613893933487985650986245290026L,-0.0435628771990338184471937326443365L,0.0853335979289654934460483006760500L,-0.135178507963988546328499017029482L,0.191558419747109432815223539672933L,-0.253269227978827231933672822868011L,0.318879481387940445660646021672727L,-0.385244527784133857673504525495345L,0.441949381368378848705452368768679L,-0.448930761417943688705830836857629L,0.272472332634136474358653194923448L,0.263994526938824436943579200368843L,-0.920322809586010784077213979605687L,1.79306987492457749743636772855242L,-2.81536700782056890260396902661874L,3.93463367151569695125956906947303L,-5.09037853213838019149972216242485L,6.18858871266363387318849864487477L,-7.04719000667442296136070425192392L,7.27241626037230378265965329418918L,-6.06529936397336044986465826674587L,2.62077867099068208587189162384526L,3.91157102824717436064786637196817L,-13.5906331153900164996611036176269L,26.3078081013409945328012283549606L,-40.8770257349596964399170828592878L,56.2223484642711587236137573182094L,-71.0036255965892616189924802302480L,83.2108496838122973949306636614130L,-89.5321191573842305532834683733682L,84.6270487755489172168276080186357L,-62.0301177823084312552279718784026L,22.9943472688076882302981203990174L,40.7311806391037870238667428989268L,-141.039619430978971081381198500254L,271.248670011486776105254356207142L,-417.141470933269272231044651488109L,564.993844535851902006110349551761L,-697.786557374428700260655775125614L,791.897343756046239525163650285885L,-813.980272001592198264859913505942L,722.590914955337633875921553809335L,-490.070295313504226089675202182572L,168.921489577970856905134322056742L,298.524137216427178729450859532622L,-1030.51182196678558795174523567761L,1970.33561805843738317011396967294L,-3002.50123666899296989308314788857L,4012.96510636705274481695695500481L,-4864.37669417323096976776630456284L,5380.66914321409467264772044894371L,-5345.13437696862347704725830411481L,4546.28091836931119995847774696383L,-2941.50083367121928469077841985452L,975.750040223529110027911431980438L,1550.97733219431589162435179547726L,-5340.06270776236562439304444732768L,10160.2764789965847190720266144687L,-15366.0996646357382931213793648248L,20317.1489662951036601692412532548L,-24267.6935130646220156758488450956L,26326.4717116915370355737479092194L,-25517.3121049290416296159250744271L,21085.7502747675090968836195963807L,-13247.2445970578990817727948714966L,4298.42259508259241374217120036373L,5773.42388871764028871531406610752L,-19836.8838994085552683784152517686L,37596.8189591763838710793204421971L,-56525.1690444891049098287781374672L,74120.6021357454547348558673723472L,-87557.3110301849978720982275767835L,93645.3677517909656188058663572767L,-89209.7948114862438447700896639076L,72299.1862855862453233999632003555L,-44576.7845696194152747273962253743L,14271.3038822362307388545382798519L,15573.1476915605721756794526810427L,-53425.0686911329230203587523480755L,100966.222504796172684389422765191L,-151139.989669075683669461591967963L,196997.241002154406100081180577688L,-230874.130095458996843001303396034L,244485.846017208714022893292915057L,-230176.716907761872404928134412142L,184168.776672964733380141850499582L,-112197.304552276060126501782796248L,35622.8411030237247257284121900260L,30743.9587704303806510799578814563L,-105359.838898454179123629669630556L,198731.753543038123952257598499762L,-296625.165643278075790865586626822L,385082.289536384758072782019658701L,-448966.792350575419855354389526573L,472393.889496184810823375700512991L,-441431.418943169582783386753566340L,350394.114299320886023722224038097L,-211910.659687444990097550750820640L,66948.8134088631721752191871588069L,44757.3029229219800869081522614428L,-153296.323088853679104078559272345L,288846.461232735314636853101345615L,-430449.992294019503508304032479738L,557611.409072735922111546140605997L,-648311.816048132925251679881869958L,679817.915822524117579511077319491L,-632767.278383474457310291352078933L,500196.038998046317249895574680257L,-301376.945241506546974407147917063L,94974.2161213525335125433293742331L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<12,long double>(long double* c)
 {
-initializer_list<double> lc={15089.6077411712637269975142488895,-53536.9962448724198284308071615527,104840.018462781547348036721819706,-159648.115779110749515600044623695,206416.266092993910682466902354441,240636.812280141031376886408547024,-221694.604512852050523499542549964,181871.372682065601862679548023660,-128190.789961230705865007889834257,70468.6334160615646654576884379590,-20985.8179728091629386479821537013,-235265.376984656954350963862383055,28230.9710188627028076798864952847,-98874.2923646512853511486590311750,190492.731233182078104052256756147,-285935.713149721807389532238094851,365799.749635401750401805738605998,421386.052189298637802999433702304,-386996.777548152534200202392113113,316827.275529666095806793857583104,-223020.143638842234341065056512531,122501.067276339187117666580726675,-36468.3105542663351688543163561243,-413942.100364932102776912570109661,52292.9454372233683188543258498666,-181404.117583281461136661201335661,345209.211856214789343718256790637,-512414.881607542186743159657852767,650048.796101148521280028148578376,741649.553947451000720663956016747,-679389.050542365348376025075675632,555284.598527743555179896396350405,-390466.901885730330409861250193067,214343.197882029445452989319784134,-63790.3959580075569147367791212019,-731362.613536603802204071569135921,96279.0595493672265466667908700224,-331595.471001569431723774421192094,625079.376282918736400997238882680,-919779.734334581250944395153099911,1.15906680911111420578963056418508e6,1.31218860072695799894125014795477e6,-1.19958355742390954388163889863727e6,979182.343719706841341031417535276,-687993.472264430223281691457064647,377490.508124443768159328075669239,-112318.934465189244250238135987820,-1.29801526867685687500325814339232e6,176667.476210372237170210744928684,-605131.078376183526801240654979736,1.13240317651827413623386695659344e6,-1.65491902823324577640260773488461e6,2.07443213240388174917999268372081e6,2.33399790247409471920242322273323e6,-2.13030202563331732317437379723867e6,1.73718563370674578835155434140680e6,-1.21986836032178567581898579164192e6,669099.863654972011885512037890708,-199053.374229345164874164099371301,-2.31451210878320056171036774411408e6,323688.526141194669372628160700051,-1.10404861075333826556529136651965e6,2.05435061393382689365170679251001e6,-2.98617958277422843463166408598374e6,3.72748402298736546890103297975769e6,4.17347601997897283190062117969177e6,-3.80463483665179926265865788847026e6,3.10035173783738143590473150300052e6,-2.17624598501114329338920159290354e6,1.19342856127630604641924732802731e6,-355005.196821837363139233251313260,-4.14666509404121435036989172285978e6,592937.913577826219002901289714693,-2.01583779871611734980514594560753e6,3.73442579298146991753137569162797e6,-5.40548849317012111548344069274888e6,6.72512968630238708546681463168500e6,7.50142154125735209514337989671080e6,-6.83252460415096072238680978056538e6,5.56519704922937583420712137562504e6,-3.90556535903779412010753363085849e6,2.14156821151205508031582179978465e6,-637023.570630328985256742945870523,-7.46424021681935573729225193425737e6,1.08691158952958555078838992972864e6,-3.68592382923536253479715231233254e6,6.80492317255784111657666954242044e6,-9.81761177562096121801164839405927e6,1.21830303656060615066788679852713e7,1.35509532814989528483366014342238e7,-1.23356567159237114544016062401250e7,1.00452510309818774654357948295580e7,-7.04919324158584086195962097179524e6,3.86537354895069795573845615908684e6,-1.14980368731510075882795250347902e6,-1.34982536049212982386562992437886e7,1.99503130796916227362742953344889e6,-6.75237260049050487156858673215134e6,1.24330683465505689069926351582500e7,-1.78918818746786295571712155063310e7,2.21591209757328536627495098489617e7,2.45977340807546992095063027236574e7,-2.23852172645236225301885337663312e7,1.82283647034072501129245484467366e7,-1.27927556566330915026709524155804e7,7.01553026225615558725419530822330e6,-2.08700027699722278076129564275001e6,-2.45196218826693977177235201805281e7,3.66820807125670614428577271924756e6,-1.23968295392537683567812659004069e7,2.27795837138188649383712588249625e7,-3.27176607045688469710918700238267e7,4.04619523742295002719107271305204e7,4.48570675947578613566743085665823e7,-4.08205367204375772041106130430976e7,3.32455559164270620608099662348981e7,-2.33369670029808216249566460816808e7,1.28003396087192342794296941461207e7,-3.80831010819175456620149416980085e6,-4.47324030941647081814208342856777e7,6.75806427148100004564895806218890e6,-2.28131018672245712597686860432526e7,4.18551735986358172923218517609432e7,-6.00291548365117788746480576164039e7,7.41623253858293769372819976902042e7,8.21651942034578271131653018026574e7,-7.47851670328275326650352087627687e7,6.09273182190745587993423504536959e7,-4.27827180431680426865683684961523e7,2.34724629113263035968975641232769e7,-6.98449874558103115114829740774126e6,-8.19458979639261655645198582173746e7,1.24774865770276099141477113854943e7,-4.20842554701771512598430774577837e7,7.71243003396692450092868318410581e7,-1.10500370394579456660422390226123e8,1.36428323355684144407955941895708e8,1.51140394155561773061306624280383e8,-1.37618632140711930567817502465051e8,1.12171290232194631794338702852702e8,-7.88005368711531526217271002889828e7,4.32475425636328033835857959818826e7,-1.28711893214967941379531241294378e7,-1.50714352932616521810930426075388e8};
+initializer_list<long double> lc={-0.000259511497637036045068070459452957L,0.000908711388644564837367220782453513L,-0.00178564527828924216931346678368215L,0.00284280672826045530870922353451231L,-0.00405891399952401075307349966450595L,-0.00696406718572387219029069659735602L,0.00870307224374781758790651529357316L,-0.0107286276024450819049084728913267L,0.0132030424004708932798151758884299L,-0.0163424476337177856558568771331960L,0.0182726041112366540760863887060936L,0.00542865920161701828335201424981684L,-0.00911989898701195848858176171119362L,0.0318977501083151672325916459876376L,-0.0625407436947212226601625319723862L,0.0992078124837484671387964284773162L,-0.140859324561456757756359567046819L,-0.236365979225609423252147184263607L,0.288728738384775802805721953989960L,-0.341469096392835266955005071730384L,0.385907610238248262891032864278103L,-0.387930950934600458646684429788331L,0.233703808402091689333960976936348L,0.186781645993818270017603743783808L,-0.202649158924867791448030770391119L,0.707337370912288821100786071135404L,-1.38139871219891834881543597904813L,2.17744075139483925690226050452522L,-3.06186467435260572386711663023069L,-4.95072047170225558569552208070099L,5.83425463617095503471389441908050L,-6.49618805081680821782331456886004L,6.59337473194232458411689627136871L,-5.42975954318646576658118261342284L,2.32406197597439206523145581582363L,4.00115980768996932864686264411393L,-3.25826542827442490263840860731057L,11.3438542669157293533650937276669L,-22.0462211843251220970958909375202L,34.4815358445751176499948834808205L,-47.9260183005443082955420058897681L,-74.2665957655338767045167583959426L,84.2440618593959712912650947314214L,-88.4757326323101452615317685013156L,82.0810648361870047466173278474051L,-59.2889491127828069543036527962113L,21.7535436052708431464925697854440L,61.5640630342827093042451643458401L,-38.0626522016495391166288208116024L,132.163525528381036754830188523324L,-255.552123771484136107711182726059L,396.518194514827079743499740328935L,-544.692102072281539096405820448887L,-810.407031644737199649708779155341L,888.660667698487499009481819370718L,-889.870306626830767602329380391845L,773.845660372516441699346663750465L,-516.462597671111561776780533434224L,176.142544075292355984820956284473L,688.032306049091240060708802941723L,-1985.45370676042923420639313382713L,6861.34519672875154385279123994504L,-13149.2489534710313056415798393377L,20123.0959520464987426989917067508L,-27102.4784590267793599823908659504L,-37822.9585672318615796703329157582L,39505.4051843097101561898008011970L,-37169.9080107369211665254079003629L,29994.6915855414156122352843932839L,-18507.3232592274972980837529550534L,5938.70058757412969270406958707965L,33314.6950669582699308866561027182L,-8955.66139788887029101439066419449L,30891.7186309756442409455047450258L,-58997.7109410280898663210723681774L,89814.9908808322764742235352980290L,-120080.480066126759806738950440558L,-163844.693186834410345848513109754L,168433.899516423258961163190879156L,-155503.843509093880308445803559769L,122904.030207735507063510791008470L,-74355.2246566124021828511476274134L,23532.1030875719857808455865489440L,146161.555349795239370628145636010L,-29855.9582323976936607393192146482L,102834.106764535442510092681782481L,-195860.935502994925548809206068242L,296945.038939808804575836239808700L,-394756.059015582493324622850705196L,-529546.634235243468538702394795006L,538099.165439802377420941259960426L,-490172.949814321228185888234362469L,381941.212831710927865724329090818L,-228084.480912529245423765057822618L,71549.8961104349233238269652655487L,476908.391285753722294829235411416L,-74232.8966109772806236445758594053L,255403.223396848826012922572508222L,-485465.041938559929603272349965017L,733781.352875612487074681453119645L,-971423.413756376345210153031545467L,-1287288.00963643677976961341456443L,1297474.64533428587394435946675516L,-1171078.82809123450677340507225091L,903838.625083079126758417666288046L,-535173.131307076740540902829062840L,166934.871457221169953743594493885L,1167229.48814495119592921003853002L,-138729.673433913782249836498290477L,476954.378932121835523602395209279L,-905346.137988261717953186552078552L,1365638.59523714258862459108159353L,-1802880.19550963604798330545830269L,-2369912.57771474892265593303837685L,2376087.78855956153401598201162599L,-2132025.18931078124884733437158665L,1635648.39140278337665896515915609L,-963392.476325818622847710168112417L,299468.192225267185093625327721553L,2158489.85598491200785796845067412L,-196015.250681383106180580858198921L,673629.151876113839107114972204905L,-1277715.89993650729399589134602476L,1925182.01147383305480143132466131L,-2537730.83651410359876185238953361L,-3321434.73442302733936430949614898L,3320732.79338050056489588255878550L,-2970384.49663577502117119145896810L,2271672.48279326381895796973394851L,-1334354.55933614182724627366955306L,414041.296596253256244250468646522L,3032379.03218729077607307550545523L,-322.379307579441580825391113589282L,1116.56088512409768937658484616870L,-2148.73120965472171559578075710864L,3309.42956358772278858914462188764L,-4497.87642350705627523593009828251L,-6460.24890427041075426062886530096L,6892.20621594511797453947526175081L,-6657.63673437296319784429431465623L,5537.92712187816475979753243547423L,-3522.22990764357599607334877890925L,1155.79224547144526197345211558879L,5597.62383831736531110144842629198L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<13,long double>(long double* c)
 {
-initializer_list<double> lc={6.18176128296585651431497281229868,-21.4088030061599777549484032729396,41.2032239687845596694728666761738,-63.4925321577773207362388980947601,86.3571897810684871346136666507078,-107.376323509645066107188109699651,122.748985604790250260686850137561,-125.821025933731221721350641927848,106.229079052892702036295501226120,-57.7526517733357370831992229009417,2.80796017296110886466495492110461,18.1708135972188138509595955089030,-6.83976860739174900281954676113182,29.3715050623387684470027572718344,-102.458687630185083384937249125815,199.730079683471677440457023026257,-313.287981523747843967636071957559,435.283609024639885128291397773519,-553.316659533304449903135899854425,644.617014804846142554402250378795,-671.512946000560933525303240085486,592.414474957434794276964958785331,-405.397306014535834138580289873806,192.298188003645367255421230838895,-57.7355397268278415849095543304905,10.5021886373958117243017056266526,109.796819222652565509932956362379,-383.654439845620646074332141981135,749.646798473143407540220254254825,-1177.90902593643831084103945873768,1634.98888025749766493500806048144,-2065.08918373553772654497109080839,2373.27152365996178647401426575764,-2428.28240821921111495562837070537,2125.01151597490212799465359920317,-1509.14992575826129732744852569438,827.974187706390957432807178377929,-338.771145183342314667239495626082,82.5077078986521267258588636215613,364.401954968637154218231122282557,-1271.80909826366700920727229954761,2478.21640893483550305152313432620,-3872.71611269922261506000245035004,5323.59355927527735002487662283664,-6621.91504358561600654948777304339,7452.81646658216690870427715056826,-7451.89638293175478476430243125628,6417.05041467219184434157550676166,-4587.76010387560030270007882856004,2635.93729272135220925235299737903,-1166.60756701658194498885644215174,300.946214002136633333238429609403,1110.79189233423138258940385846226,-3866.30184334451451028218878622838,7493.29352088790168951633861250514,-11606.4586260758519358362946969648,15745.0210291829313373269832896067,-19234.1396904612381458065558061619,21174.1547851162015706846519838163,-20690.3178434443890340265256211797,17506.3965182655434541645882066747,-12473.8653002940024272424737056761,7292.45935786014518749560281023128,-3328.68586831762129404068217614148,877.860102844354449419191284854018,3161.02032177507813559289926500141,-10964.3493824537437963116181308778,21110.1464575028362714434945330750,-32364.1647395409989947397328442650,43278.2882637445567887630809913092,-51901.9534222176241992660239284948,55922.2707454204850212995964618209,-53464.3405854061391824806188529721,44445.0167831373896569395467731564,-31415.5750374773712997341616629642,18452.4160238141046915712281190431,-8528.39532118778753390726671880366,2269.79462604693770452027151439691,8490.00766350392082721256189847668,-29336.8868750642338453783871334953,56085.2395004147165809155544548837,-85072.1387734536792179399167913700,112128.402231602625940668427631900,-132074.219978286754622374215572421,139424.996683648068971573079965284,-130566.051910501593915892187690820,106640.585242934873437156592982030,-74553.3496963915032333254349411291,43673.3110434210987032902160202129,-20238.3420851491310454964644048446,5398.59790906169474154003242121813,21701.0715114788116311134877578281,-74694.6450482564853545203889477978,141774.993514310743072441109354167,-212768.931786630469289890740130292,276492.598490690282184619091392570,-320079.347134807841919887159267228,331357.217692461408619507753960314,-304161.301074597363070937350937284,243983.247241247347372713149815408,-168255.310189957191787398613371065,97756.3411377407112798610511957141,-45106.1141708361140432033726396208,12000.3129480294247063445069704261,53134.4532335960797141761792256160,-182171.241919160152494634331286410,343302.081579090130369562412205927,-509820.807280470630595635889101318,653408.896059735369290177128706426,-743800.778542937348719704076921395,755513.715009430706290807095803861,-679849.177079528331636172642835853,535020.381472694576630315623257823,-362827.156967477125520238050467350,207941.321011689110505169658521633,-94917.9017130505049146905651335487,25066.3344108193497365611609030378,125260.221645464650989303276511887,-427775.383558202621694128131288603,800421.970057918868148462675466045,-1.17637400052070059923049399661480e6,1.48728940126686937453626759788493e6,-1.66518292700380066818988699038920e6,1.65958903838150501805882031164568e6,-1.46301936029668083674363423236896e6,1.12727794170133096268629200010303e6,-748623.139641324528492550010613683,420421.710974803979726496073276615,-188363.541184953027412329491376818,49078.1763737082519043308250946432,285435.621256880168097672100240963,-970970.137533427296022496082986284,1.80390490931779843101413877277024e6,-2.62377417868842167164438242346562e6,3.27225391169729268493759393897235e6,-3.60268613960207330448571494256314e6,3.52078183805347001471628905531302e6,-3.03572068995387635182045046975868e6,2.28233082017965587679532530032986e6,-1.47506860792357783427356743267697e6,803962.169860904652893185302721120,-349385.312718931168465820607502546,88935.8951921271130894231838923503,630588.341479330296000378095066653,-2.13655549975080224050255855594220e6,3.94075433118392033309939261753250e6,-5.67147201365465580458931512697987e6,6.97477615211067395743818446305069e6,-7.54579103786820762601810551614704e6,7.22003332146390328825210208677094e6,-6.07070801759000314929402462067901e6,4.42837746844219411181447561886714e6,-2.75764092177604552736122791281093e6,1.43532802815457896529935265802916e6,-591985.665722056446007861319541722,144295.605122199065698044194312577,1.35339451820168590660471632236399e6,-4.56673844274125271219955966836727e6,8.36015671940810432420536505632625e6,-1.18996320457077296915500087428412e7,1.44187945516331407005332856284268e7,-1.53059464351299216546769646903615e7,1.43000159163783794479236190271853e7,-1.16657697633335144424944087919689e7,8.17886687936224856409502137761671e6,-4.82152568873485756279140058758120e6,2.32135807933757355274280830023582e6,-863429.147652855199807858655629008,190454.944196912004157059317778034};
+initializer_list<long double> lc={0.000191143261294369146189010052904495L,-0.000669338899259159443916833924739143L,0.00131528471962302855024511923998661L,-0.00209368205683340446242653776586629L,0.00298783379709357245892347872798023L,-0.00399133963012437823160967565770667L,0.00510765575750585181474848461449431L,-0.00635350629740387361608569089807723L,0.00776708512411653060239457342645326L,-0.00942484025812891088820094110026996L,0.0114711629015880896712132851946615L,-0.0140966071586379925523629158513703L,0.0156976213798722022144739195379944L,0.00681773307859424360936250360289601L,-0.0238538338514346942340946075676983L,0.0467977984738083678235808951452037L,-0.0742998909602745514966947812214012L,0.105617169080672790723415986750038L,-0.140270325445143008256413537319188L,0.177926123787854183888848780584490L,-0.218283748911194404783305827204434L,0.260773182238093773683827889976471L,-0.303487163700452343642667429650832L,0.339054780213488804296421093473069L,-0.338071083158028548072589484303679L,0.202480059542526403857034599484704L,0.157420422802476083655573174442963L,-0.549934942823117840009058919299920L,1.07573128870680327238486693169487L,-1.69997709075164063123766414974263L,2.39976929544347304050425798488281L,-3.15474305543748166291284941273402L,3.94148673600776652064155977703132L,-4.72528905361067651664831262333060L,5.44237049697067860455937261369387L,-5.95779180088742820312687339332168L,5.96997134673864146432096554087562L,-4.86798175371340430204862693704371L,2.06817906518725521351968616805968L,2.70605707669351639128008355860918L,-9.43480874993270253843392709302829L,18.3867014874658341448769351784350L,-28.8862163588159619210300735156874L,40.4256264731655975299491100195670L,-52.4844024748303747884610603995856L,64.4031505051222574582076119410851L,-75.2043741107820069770563267615040L,83.2795532423128057234854309943927L,-85.8702118943639891985821269255904L,78.5210751094495747316252338913048L,-56.0714840193496980937139572180365L,20.4081590441449774275310740265404L,34.7887256368531370291799571097323L,-121.035329002149865511558046322662L,234.931584825721131512218111226350L,-366.787172293622126213713271323685L,508.674647717118448151683681961736L,-652.006776387329654033052672822538L,785.857627989380882123536099356952L,-894.893970056003497374379417905799L,956.638369410733650966759774332964L,-939.047185551329510483165835385922L,803.666904124262999603514070413640L,-529.672403200461429136912195462250L,179.160730411307609939450788395418L,333.007681081991235905325106673807L,-1156.18750831805933766288226776601L,2235.47277284943149229813429727946L,-3469.26208983253026652432635425847L,4770.19937673192764038797201445957L,-6042.22308589494098024893876711411L,7166.07597084918941142027693653678L,-7984.93398789098309677389202508970L,8292.61369158177573473284188202356L,-7840.80227358159914481718666898890L,6410.44247178574944939825329003449L,-4023.09816799315053881891174584989L,1309.07991947322083330630153799886L,2372.63933422271055401552329343132L,-8222.17984453977226508627843544080L,15841.6429931766263673368904051576L,-24452.9917507427946380129929919663L,33368.3560525375566433243192538295L,-41833.3563525498021577310021770936L,48941.5443183744882046580348278650L,-53573.2525675828677848285973343785L,54393.5036016121582946841582497436L,-50026.7323364254589583189163720458L,39634.7733499270259727741489337187L,-24115.4341990025169056623014676126L,7671.98740099264667284701381479201L,12634.3209059748144419784770160815L,-43711.8408727363217642549607012767L,83964.8746219994557873544655864621L,-129013.658305917747905059968817222L,174927.421309662593291276283372675L,-217437.311874640409379426862866828L,251577.835540463425693562352907480L,-271546.781054018125020239616131443L,270991.597856571761543107551805694L,-244254.976036915421439119647397892L,189344.883451133890481573744350824L,-112888.652672273738498837939566978L,35412.9023598538003354831532064840L,50624.1425288896547332112037497341L,-174911.556107100545702462130824042L,335145.084035566943529037425754972L,-513024.325973001528084157880653766L,691998.370431712844141962739564379L,-854300.912986487827609900486647976L,979853.260803112285238155594549418L,-1046266.46751179747271601106868639L,1030739.22678294817193264692693510L,-915555.522965025352435204968503088L,699014.768997526927601084129608201L,-411103.570796027400265929201640097L,127788.227006058817860994155749984L,153812.713675817720050749172717207L,-530870.529666730378261619921190807L,1015189.54598531512972851291413120L,-1549424.28714230012023837600143990L,2081522.48267483689012335421512046L,-2556217.21049819077854860266880763L,2912514.02244181945127761705094110L,-3084914.38578750355763548898166274L,3010550.79738206302259712833851610L,-2646313.32846529434524873380100540L,1999129.30913996517846684908430564L,-1164878.21728424085846931426050062L,359899.908719112366328035180867700L,356980.455759261865670305424645973L,-1231101.02297471109576900447323172L,2350792.14518950585831474040552423L,-3580023.86637190097547260517756092L,4795134.21858785272120633029888708L,-5865997.64622353755947835480199797L,6651592.55495588021451733026761210L,-7004743.91948810522759846829111246L,6790518.15261740774572855041812630L,-5925873.82497499599775852845480346L,4444484.81938732904032148639141930L,-2573775.57436962614274903351508606L,792014.408694684919722207904680840L,636790.296618659954378450820895854L,-2194876.21619944930516192241027895L,4186954.86565074048003943810199075L,-6366887.50361530241625388392108317L,8510799.23513434400249410142509706L,-10384624.6852085259967844285825652L,11737862.0026642122042835488770331L,-12314149.0637792437021615258328854L,11885865.5400304810100811231024302L,-10324154.3908487211708325834657989L,7707827.85813724862920808331174379L,-4446204.81686143356555961881891844L,1364797.83707618948775819999561312L,877114.773509286297068251346196909L,-3022322.55330124959404483750415653L,5762252.89782463455285136300626574L,-8755276.27751225313592150707775854L,11690627.7153222030232216591140489L,-14244575.4550749847821780373159164L,16073051.8524870454394474011535809L,-16827728.8535517024804555124754986L,16204836.7883176807356555961435618L,-14040836.2288341319874666434750388L,10457334.8893897533149808847621769L,-6019951.77496278688106541481211781L,1845473.21847803285720087187107035L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<14,long double>(long double* c)
 {
-initializer_list<double> lc={-10.2910491201745120760288238798559,35.6649932160325766216087854954939,-68.7690593391070322239773060026256,106.433249186057306353358226526756,-146.143486192263888634426069128872,185.396425039936284368298552881784,-221.090120196881314572561012603924,248.301799929366066500321686931137,-257.919153498239416344068534306548,234.545421862513355709039423111380,-165.851313176512109847948190194499,75.7307225154488337566831859905406,-17.8050930492445916823977585640482,2.80352091872003590267703510993137,-37.8146707034560216471931849212323,132.338523121893426929513326063090,-259.733684784192489963103004338320,412.461025995191069984437986601516,-585.586404894057694504223037784489,772.931726435990663436364108569125,-961.633253188619398000330484798036,1122.46223959614404495430285323460,-1199.57644091701316877767462604961,1121.31552041206719751305812266943,-861.453302899804054280584787445832,512.670772995702358558819040712771,-226.530722086344361000602291277326,58.6555525288880038328989934589698,-127.533527567558068145717068367897,449.176493725425051126095582527733,-891.308807027209532727550733997805,1436.18387126051936278669882594828,-2072.38128909747376426390596998835,2776.08252331922462692295432742709,-3485.35745561204618618254409204422,4067.17411303625056526637777473430,-4307.61478053183418376256732189741,3993.98336654513992651988387713234,-3110.01615947563108468749394495589,1957.86729941395747808229622248384,-943.914202007712387367735753316161,257.998792588929115675522030097295,-419.312810579804814593111085030069,1480.64665274544785401063865373233,-2949.65192304157869315077529318076,4771.86604845340577858550851665759,-6900.28250086299159659038787191180,9223.25105430236863196001650975965,-11480.0053489859775580134649227593,13188.4334419175073154991183962936,-13696.0362204070361748938844096057,12495.2164277683483114963516278659,-9710.66891203171241983336541072945,6230.48028130710408760732835157589,-3097.47691771321460217772884973423,863.797656097112537509597933351987,-1339.00310263941210727628402515108,4725.62434280184697359962248989085,-9399.29190846967954289849770048559,15151.2885643264611953099209732721,-21758.1474421982417075196197877979,28749.9844066859916243382265333524,-35191.1432420428247004905999911883,39587.7822848725395283522510871240,-40213.9972170044055749449035953399,36047.9663581223029295847100275185,-27821.6303942169349063666030589004,17963.3276835691916776106000917608,-9049.83293363325887593168958371618,2547.27955263636234937883135119179,-4106.28213009044319256162406732297,14457.1806257640591708874009351260,-28619.9664553266956805445193727088,45782.1593799479931736257968893111,-65007.3010965651290659364181592041,84584.1318258387495427664530270083,-101556.379215595866583452704190150,111783.504409719790475528884473014,-111149.978578375267179977880240155,97965.4592767790556120829488690679,-74967.7840375493932424312521951136,48442.8287714816997597629279454646,-24548.5740092550839834425666630359,6941.17487665328518501342424208789,-12028.9475136183700422887105556397,42212.8729024573739880055814938479,-83056.6348642026850456229409460827,131630.981157696759461999979766330,-184528.268990152725810908148091643,236213.661496403938985015239723131,-278208.662783639132635278255608910,299959.283374362935664645007412836,-292452.132584528075465530561074740,253777.860221333380873926291944072,-192484.901618541117920224189078120,124147.105816814914938433067311885,-63045.1576478192448136476814294152,17863.0908913948911992358100505272,-33665.5384543048312158658979689882,117722.830992710433456361987775251,-230120.732669742193398882220205942,361194.394175960216709447862988387,-499866.140965830303157914143308898,629804.977509051486575684121132708,-728450.831141326344952439238089456,770630.830482684409308943600205497,-738097.963772351945331989238733563,631449.719276302856561767380285968,-474738.473819861987392021792985887,305173.151354712715846369603499371,-154973.169073915456573066453409347,43937.0781309011444354138558335579,-90284.1418115437981418277820443592,314589.040108267087769676009874315,-610987.121512695244439409013297854,949996.932244973229010097897966123,-1.29861047556820315466439475105577e6,1.61197599678716421893265444102803e6,-1.83354094495486125241324005652777e6,1.90649654385793121049897216844349e6,-1.79686040748350440382596650597093e6,1.51730774721391092423589130639468e6,-1.13093026467387249273443478671252e6,723914.839572900093906717352267418,-367116.504437970604592569191139868,104048.878817886597186834222827145,-232926.029018366388565809734235496,808835.157758221436160756691829774,-1.56119024341736888582559084358226e6,2.40577130399186894658932425730686e6,-3.25071700325562888918646476931183e6,3.97970003137809377640153646512347e6,-4.45771966992559199321102923855428e6,4.56264228605076153961492904275138e6,-4.23751517982801615962226426767256e6,3.53507687500670873037895259326751e6,-2.61249724601737300487201496509078e6,1.66408326422924393939065554025013e6,-841917.241591225623948437101112553,238373.801712336430673073747044597,-580415.196636564937306662284442039,2.00891680998371169713254683946748e6,-3.85483132903219786047409861218021e6,5.89031655586515519148797316502053e6,-7.87335614627836301906415308516156e6,9.51604149744950038420167367820956e6,-1.05091077567252059187221590618153e7,1.06015075772588193988559028080866e7,-9.71276921979597256650704795085019e6,8.00992257767088472442861387877500e6,-5.86905598806086503622814728861305e6,3.71779752462101482920853222180608e6,-1.87497757673199836693165961315188e6,530010.768419340827604867878397507,-1.40203163101291605392867474300610e6,4.83765274514607714980715759916191e6,-9.23131935935327764401527248252587e6,1.39941044744811408027984866208683e7,-1.85164566363311182088679778238971e7,2.21131597377726123494265718386738e7,-2.41005827092396702341742281030130e7,2.39850437755133928084379744537103e7,-2.16930080735466903871415172982895e7,1.76906989955309460357212804375212e7,-1.28491092345788721286190371644545e7,8.08895574959350190169803914191994e6,-4.06315688352746404051763763497436e6,1.14604914000845661398108164616212e6,-3.29346623196939398018625123624224e6,1.13305077553145677347716393847357e7,-2.15073328660107436862470006818288e7,3.23593692865303477700182478094103e7,-4.24082436774446028030330824742114e7,5.00767803534740523999923169338623e7,-5.39011673015979195508110748948686e7,5.29552526505326896461320029428955e7,-4.73016933034785293944500230069160e7,3.81462894139935775945088491313633e7,-2.74516719793150249090771918397724e7,1.71603295062375451121376322393359e7,-8.57752261381901325531203805034596e6,2.41256909162304025762132772966568e6,-7.54380568648201912072365117238206e6,2.58797849901037752176758863697480e7,-4.88772258174120580338129624538280e7,7.30129212398209138308048620758100e7,-9.48151345262370629077894301926843e7,1.10757923301769417971803390185646e8,-1.17797404982158366129217538237773e8,1.14289160557425782185515366808272e8,-1.00833420853638306926940199787296e8,8.03890783601721467158433650741888e7,-5.72755599376425278206288460340491e7,3.55128937809771679241185184440344e7,-1.76442278996533607623199248826080e7,4.94501755155542945215632697547358e6};
+initializer_list<long double> lc={-0.000143860186480300085223265793234087L,0.000503778733649417808252075545760118L,-0.000989956715755953369011079643349013L,0.00157566577224381150454765298919623L,-0.00224781262874058780035666692043071L,0.00300032526585739231447375620697156L,-0.00383316110569362925068817099544978L,0.00475360031087827830770000562790239L,-0.00577983669145009976955310885770288L,0.00694837914623939678909929299419187L,-0.00832876721756750134212720279426869L,0.0100494368589985986620818190571386L,-0.0122789041906421032089449066208731L,0.0136292083000571100189511658521211L,-0.00519298939999977991725559833916524L,0.0181734908915094193447855095764145L,-0.0356686056768736009754758086584851L,0.0566632126344044338424200653665161L,-0.0806059268413398515031941214728109L,0.107149791946105455940758264498288L,-0.136074426913374381081903128288563L,0.167242710390383249004383109157655L,-0.200523218582114078950212436497040L,0.235535155633935569255833075925586L,-0.270716652743865350129037121954253L,0.299715250512895484463232225032238L,-0.296920300796304800615442699771734L,0.177005067112851472652913095736417L,-0.123715110119892358072465219903887L,0.432446527085698689558758056675433L,-0.846860130708616776725350017395879L,1.34062623023114885761742864399720L,-1.89733877262064004343902728347164L,2.50362594837660806354869748715796L,-3.14594117001054107441658371554803L,3.80693382674732109481090201984731L,-4.45854616147779209906845618725276L,5.04630145883742934307217532630413L,-5.45180683384706374260994137080559L,5.40806938904837190557785264221312L,-4.37520116008083881611220774657617L,1.84780530100392445966331999343358L,-2.24754667458730470010611727934563L,7.84424289471443518580257982799527L,-15.3169050381686659659076914657113L,24.1381953917070744052683795131243L,-33.9383834414382330957902919698295L,44.3690049176588484846372922398102L,-55.0260427629072402449933528266766L,65.3561413900466473931102869891025L,-74.4981098101719966935846831892469L,80.9965939655793716437882250532462L,-82.3291685164718704057076784016009L,74.4281576630086929640185361961315L,-52.6657264493074170361173332886014L,19.0459000179318153305078387000926L,-31.3136044069436351286731583682362L,109.102971305966061724664369339523L,-212.358129811940976627275225152057L,333.009737559241709993044284685516L,-464.901844246232644120907536892885L,601.805968845808919200795018050213L,-736.249023695411133906045508496774L,858.168930080316264803236599792614L,-952.999213210618155869871312316782L,999.089489836033746308569309214413L,-965.570335199478970144726551057222L,815.978270078236847255454144883422L,-532.435670885316143452524807119024L,178.914829432159032918277728078004L,-332.673927607939667364466733725224L,1157.13015746505004672987892280730L,-2245.07660021665116843339747261316L,3503.46013218537222510824888174277L,-4857.23605518104192337043643835867L,6228.11627590559749903605662217228L,-7522.45684472964107490688347751965L,8619.04354423265680729459520615981L,-9355.37321530500919479758447639432L,9517.03964828459394768665412743940L,-8848.96448371744020182485210846263L,7136.42088214393684046585947402701L,-4431.44739353085331493937924496591L,1432.35832388690523443548888177892L,-2687.52119676479928619017261212376L,9333.02597187851201751287857900660L,-18054.3694438880365055066197016013L,28046.9761382861896569772333633930L,-38638.7892822058459746608143240643L,49121.8053542880929568288418427365L,-58663.6650153988907764930565655731L,66233.5002039177881636795930445197L,-70546.0419528241800852003303317132L,70079.9088089415548904196179865516L,-63314.1128463294121395378857791406L,49438.1832530528927398658403547195L,-29748.4567207161534051898680955542L,9400.00270028793407566370911651858L,-16534.0707667854470621987126272570L,57336.7330820602602127807361938737L,-110623.895911355481131289723124741L,171168.393107695301610566166479749L,-234508.252545860113901388339392565L,295944.937861063556042363496605192L,-350072.921770250877289842351616896L,390474.327875055914498542464645771L,-409651.458123615218360591346735902L,399554.715406551705529103340517218L,-353417.587486273996598254006590361L,269808.925616422899769136068717301L,-159017.753603629710356084378460914L,49538.4612863955607089876185118558L,-77819.2060492822779539408186378800L,269532.506312243025424119216576560L,-518861.129729307036358640812914001L,800127.631230658484643056883501590L,-1091122.36472175671241246213138762L,1368575.06112632673445292276768167L,-1606282.52527392509050276987436625L,1774279.57296900038375123211315716L,-1839477.09780514177707445648405118L,1769301.57087246766030214234729421L,-1540841.84537358070537076303927180L,1157719.01738779886945765486003251L,-672767.932425434101502383452351479L,207637.401036117007089168642572423L,-281930.170662582695530195684055984L,975504.657080303352455998466452836L,-1874416.41181638537741409068586673L,2882527.09983040785672332130045069L,-3916022.18556740354611730129318586L,4887655.11568731816023754673400165L,-5701048.50613626522063703788899284L,6249426.60845624901751682817130697L,-6420324.96512306294065980371700712L,6111088.45771062008243324979804108L,-5261773.92170163293669041695787340L,3908874.27323524948425882934264685L,-2249422.93261307124579110000187877L,689863.639244574188291218398606003L,-791349.575949224624147111300152080L,2735963.27572838182627968001088329L,-5249430.09580296756268049711378842L,8055162.64455130604304488972339760L,-10910904.3118111627329088259826952L,13566083.5386178711787032768793833L,-15748277.0854783848376987838518832L,17163279.3501358591995835614176892L,-17512806.5757184638996336024573702L,16541377.1626518657755628614671625L,-14125918.4394485267473131433061848L,10409997.5598316273449067579617962L,-5950098.47925331379248542272174984L,1816921.87559158523462909434752154L,-1731324.87798915048378574639644099L,5982207.15558250167434775332762702L,-11465391.9511867898485434725749833L,17564950.6076410347619660302546474L,-23739965.0658006828668899008053407L,29433952.6074061265762171513561049L,-34049285.2284601863330221939135153L,36952927.2496302554216414725750083L,-37521460.4848575997180253790416498L,35247245.7652680280667789922374782L,-29927909.9975546972309575418646311L,21933544.3021224629338740210970364L,-12478982.7676326330376139061331661L,3799493.59943198761889521647672259L,-2967133.41089133622572375211039499L,10248109.1658077617115020442541628L,-19626772.5487711589262272041869706L,30035138.5829407630995347112456344L,-40533925.8545145913612294927459560L,50160605.4685336767885184763675829L,-57890241.6857214305114324736354474L,62651511.2498771655108023454162988L,-63410342.6674742071856648937574344L,59354599.8528807073800873173443333L,-50209853.8247057876034305328632265L,36667341.3931406714650942918478169L,-20800548.9505841334697327223518242L,6321514.19369934115968864384362048L,-3998160.32504917911001824037701607L,13806070.9082679425653180002366520L,-26430074.5320373066246023849924876L,40421983.2995285280672265074094766L,-54507267.2524261721893103926811592L,67382767.9236585966766811556896627L,-77667375.9475198752204301116971287L,83928036.4980225028903709968456498L,-84796854.6628049758428507424957745L,79221366.4571535831311223847048142L,-66882890.6238545788155420128190265L,48751518.1173911333439701117747478L,-27612846.9085368054092784410648372L,8383728.04134851088574933888722547L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<15,long double>(long double* c)
 {
-initializer_list<double> lc={-680785.069834758720415639474411158,2.38745017514326997821156485019113e6,-4.65242845102783325191599249552755e6,7.18772824115353931241763434588054e6,-9.66226249821410824458253083175810e6,1.17462296405987632516973122991197e7,1.37789899126168106269697181462184e7,-1.34934014106405088952114122707755e7,1.23525684346135037690721109504686e7,-1.04841651035296343301874978543171e7,8.09699168274748848706416690423373e6,-5.46603488809294897645502880592397e6,2.92027667637585868975528360430087e6,-856461.606004360269012387093190528,-1.31746947299013404376500165192919e7,-1.22718981403933245715089982849120e6,4.27596204942486666535054372202260e6,-8.25835967922397073027526852596492e6,1.26456344181557269130226932879279e7,-1.68734305251226192933017134229468e7,2.03976946972231258538251173123933e7,2.37606567237999486999063094555656e7,-2.32190704551220823157248587308745e7,2.12233017647467535144555313817502e7,-1.79929699448666385154758595826655e7,1.38848763613619443944534584549430e7,-9.36798691491976520179348825327132e6,5.00310847035691450118563647942716e6,-1.46703443282799299851273296871457e6,-2.27851922129251155872711371292940e7,-2.20822537577858885746591192674016e6,7.65653501604682955348130648570056e6,-1.46857701306731479110850533658352e7,2.23316166407327496307055988092532e7,-2.96228814970117506055545468178798e7,3.56491240969829818148060474619749e7,4.12916377298028744429132055821708e7,-4.02807386079817808432187736501364e7,3.67718964804530498872558942596485e7,-3.11460998432956095633038805325138e7,2.40188515835349572884236696670138e7,-1.61977145818397950280456999866121e7,8.64801332397198536611214972369892e6,-2.53540435929255628649979439096504e6,-3.96908401362790075248018816968537e7,-3.97468522270383835376285711756371e6,1.37295776593579597478309018469417e7,-2.61941612296241967339794595049323e7,3.96153134130023850589737271507331e7,-5.23058887064547926249941927014087e7,6.27209757323754209256444316621020e7,7.23171814515327168477259866243440e7,-7.04474715657072835932427386172234e7,6.42441952513842622155014132252580e7,-5.43738993333094748707343041376327e7,4.19082289480392299146804519405050e7,-2.82509770902523654710545515199781e7,1.50795369368951004230778543672086e7,-4.42039985884800813428656347880730e6,-6.96475261296290902737270102419868e7,-7.16688109722111121050255829396986e6,2.46847442017865582130097090762103e7,-4.69010233458148165339409757566873e7,7.06308690063659824819999617115105e7,-9.29163426391210714730876980233316e7,1.11100892421312331071205416347470e8,1.27630876996854387000059043484699e8,-1.24189133786089696397270357348326e8,1.13157710655561305435949814131901e8,-9.57125114822049662479908807633777e7,7.37360924462833895651264583823883e7,-4.96908620795507845441410923323230e7,2.65180898213500196656557678134748e7,-7.77264307564290584493625131034868e6,-1.23109877837792356270281881636252e8,-1.29591061971905330596309120020440e7,4.45356437203252486057225148773231e7,-8.43479458028187792882790810157900e7,1.26604525893048729549081093965412e8,-1.66073452145038327117102407441377e8,1.98129438142640549942608287778503e8,2.26942726632100691293199612103459e8,-2.20618328876755881671010876290757e8,2.00881957478558658574691766561974e8,-1.69824958433226615377492987087627e8,1.30782642203381553665045637544399e8,-8.81115996928667444443768343901454e7,4.70138545754922394471266501202381e7,-1.37788762614802068238751277803663e7,-2.19176521063409338771110792319522e8,-2.35147268966403254388549242444240e7,8.06734675730673144655148223649928e7,-1.52414826809378248276023061870669e8,2.28184490215900973866004753357739e8,-2.98650369871108429028177226743636e8,3.55666306844077641400132185776309e8,4.06437746752981128146950255134935e8,-3.94812834946508555334528022186123e8,3.59287819255770731293055501452539e8,-3.03611008999867729375941301671829e8,2.33738977670215623234524198230525e8,-1.57441928495429209844426246429358e8,8.39949558184132631839177748389810e7,-2.46155519313138549936845201368383e7,-3.92922516031210216192929605290122e8,-4.28363948569095840821763502854111e7,1.46769088385298966313232915138583e8,-2.76762234481618911202302613954065e8,4.13524854970564392231615263869989e8,-5.40279839475180684417750210160146e8,6.42528862770479737731849493478848e8,7.32871505653103270583372071525007e8,-7.11467346772302772606417297242682e8,6.47141950448958685198052227758744e8,-5.46662422233305061804549461273077e8,4.20746023239141529334726628553226e8,-2.83355339180254541871496140977655e8,1.51152293650119756255141239884707e8,-4.42940339332636544709915517080676e7,-7.09076968053699702778970177668368e8,-7.83595351119870976628802263636458e7,2.68211540266987844693232014012035e8,-5.05028172019709042801577660868361e8,7.53427665039090517625267406168017e8,-9.83026768826167387466944469375027e8,1.16777718927268316334243529749965e9,1.32994165737877802793662044780206e9,-1.29042839517008679983453936736687e9,1.17328538400367024301077769534605e9,-9.90812476592693751699152883641692e8,7.62424670030519799556467947168414e8,-5.13384977185986242638499579106025e8,2.73832863129047337552916699321164e8,-8.02407237556163696924268149086025e7,-1.28761992034126917212513504636041e9,-1.43947470709756941524794385682573e8,4.92328971347832618213587510026268e8,-9.25987857856753248708644801561868e8,1.37978777590095130005621977651638e9,-1.79833318952830649433658806340676e9,2.13442989774296503623669650465527e9,2.42776911974335564535819798502547e9,-2.35459415228875240396965800582770e9,2.14010519536344110142844914969343e9,-1.80679672675823614568802756299126e9,1.39005942938840861659509161787158e9,-9.35889883658051646782125092206517e8,4.99152531258973034955249614860724e8,-1.46259878073335513246282776957868e8,-2.35182376176656639118834979116430e9,-2.65535342587568046226359459973842e8,9.07646460040234877575524074211406e8,-1.70564667598858223692042297838629e9,2.53916346324380667181469134914878e9,-3.30657703420111658340390044144226e9,3.92174530049047927775350172534451e9,4.45597570253239351808522194200609e9,-4.31999636794063341830478059902708e9,3.92527482465604246028361038005952e9,-3.31317937667139658544089226015657e9,2.54858406421151240942889285431077e9,-1.71571112093166815193507950176966e9,9.15007828737768311758547858392052e8,-2.68103660654951880076546043611482e8,-4.31864806483922428259297344968248e9,-4.91788906000710439528483280348470e8,1.68025112229538424047795691794863e9,-3.15538247875337117426849822674240e9,4.69389041210235490876870599947953e9,-6.10832505372102735862135419667281e9,7.24043205156329605237434787339999e9,8.21915854024029991810100948941526e9,-7.96559014111108944043157683768021e9,7.23579818864099724370833998520485e9,-6.10623794411926641185466845428263e9,4.69642439348761701865431869728092e9,-3.16135994399963850315123675174904e9,1.68590104013315455770762799950928e9,-4.93968256597486353215625018711004e8,-7.96920302407097491589180187734256e9,-9.14272692980798144180138885854272e8,3.12259294477746104131312535704761e9,-5.86084234156001860553806244827222e9,8.71329842914763072898369741435482e9,-1.13324718835685394941184586788469e10,1.34259897160001423302871270737259e10,1.52283426195774437898323844675542e10,-1.47539056842114639216953490410655e10,1.33988894453628994489082283393395e10,-1.13052092293983642567929463832473e10,8.69401855769279430580908791222406e9,-5.85188323083149226166909940256737e9,3.12058743193370639568322656589848e9,-9.14313711211743903425122984126065e8,-1.47708203706465095329191136844035e10,-1.70567381593365751816664357303396e9,5.82386506847402344154236329979597e9,-1.09261598409224067343280959649247e10,1.62359123471047713601060311250939e10,-2.11061245080149772841054030442193e10,2.49940184559617196825603107666041e10,2.83281091115463344790407637441763e10,-2.74376388043934298223465557916600e10,2.49121921253414162081659291782743e10,-2.10161778872189664520676134467800e10,1.61604157802914877720175387895460e10,-1.08768488092370725436985210493222e10,5.80004611747160661643881676509714e9,-1.69935901183106346138994622864673e9,-2.74865763285621134189303540120447e10,-3.19234560993505071744889627658065e9,1.08974200340731832037006320880666e10,-2.04373051643812628752868603796256e10,3.03564774093214910301827602583364e10,-3.94456259821766761713733878958985e10,4.66929222811893130067032089309275e10,5.28848797928288206491158327714146e10,-5.12088668190242420564329942449373e10,4.64861407715394628813370703710896e10,-3.92109008767107684574246628807433e10,3.01488809662550024533771873615455e10,-2.02910492875049441349803738701300e10,1.08199639889398063533074684482629e10,-3.17013205584385266813824024658297e9,-5.13304594484973530905703221031331e10};
+initializer_list<long double> lc={0.000110324021258068172769174932383011L,-0.000386347265518530499696860192366733L,0.000759199417422401470619715481881712L,-0.00120829461022858728922929696960998L,0.00172330825680529259923647951025610L,-0.00229892046942733801657874469396068L,-0.00363068607608132398854658518933647L,0.00439864890175654642237510372153077L,-0.00525580720023126188002135744383725L,0.00623624652603013242383807956862421L,-0.00740291376934352838653982117683942L,0.00887033100636479740205522029437342L,-0.0107881699489283794655397164396423L,0.0119430867633935033989077120645959L,0.00293373543648549339156803723864140L,0.00402155048315132422980416748390387L,-0.0140762655845219354161647993974480L,0.0276351631680763626082269074394036L,-0.0439187813005132992662781878084593L,0.0625066404790297751960230988150069L,-0.0831360523364189508278688053464225L,-0.129944705109398859657047549202663L,0.156007989399946465496609287896443L,-0.183798915662433955850318586690865L,0.213055686549378778115133640102394L,-0.242468781009662898772883021153962L,0.266498167279376663782374985998290L,-0.262637623906894018710778518217781L,0.155975169250539845310393230367580L,0.105644062099991751608894675859475L,0.0983118088690239645567116585426481L,-0.343797004937071170179003642696053L,0.673795647580357548602148049147274L,-1.06795772808786424484072287408485L,1.51407836896112521122811274973505L,-2.00282101080433949407908325485555L,-3.07296390667947546996951560480592L,3.63138731220144064754990438067517L,-4.17757415512582305575851864812631L,4.66423545483844829028411755603345L,-4.98653693674476756299691040814439L,4.90658280050970487975297913638133L,-3.94426128149902202208161922567476L,1.65778276963986312147466120837094L,2.52563456957318574835641475911486L,1.87043238153288014943665235436037L,-6.53296797497801504673011334234779L,12.7745545177777186903803438435151L,-20.1762558758798485181300453085723L,28.4601095977408551392879975431117L,-37.3822670469428347015013717552596L,-56.0325948448324161075872632463233L,64.9566825650146912579733196553724L,-72.6866649685558954690148095689574L,77.8991794812454950690896290454665L,-78.2839984337627865417774593527752L,70.1236418020207451429208020563674L,-49.2542018450081062805605713272147L,17.7196787190126769520940091273647L,46.6824630599347552404107872485851L,27.8944611307774005061057753926408L,-97.2948428876065739428140658307200L,189.761971515051633629069210114322L,-298.531596350507077350756770390008L,418.743174685391141917563314234846L,-545.782544460831051833227485752943L,-798.042041697213191013688683846121L,907.254209725483119532594227097101L,-988.256473076827963803282697027666L,1020.31849572049497293259982940243L,-973.919216493530740784103799549554L,814.685489746540609266265073761747L,-527.306182251972348453153899051171L,176.250911590545342917312877138260L,674.438697017900457055748480938204L,324.043976746125718769797283072194L,-1128.66288105615808183221779128013L,2195.55540560380797354934122126441L,-3440.22880387075516055107508452483L,4798.38076151517762495911928337553L,-6206.37004934676302902194993110016L,-8861.28131916275730932914791425855L,9894.39053674951856639896843250439L,-10524.8609797382799226764730655639L,10533.8466140334392371660802456020L,-9664.08381222539042125594714234755L,7708.34383973466933802890703665441L,-4745.72352594654364520739502001081L,1525.69974127119450428500768711663L,7591.25342001917582503203615581084L,20375.3220412343994937172838776251L,-70785.1472545251319365744442731620L,137038.575212148352379087930115566L,-213177.841470461780953569291112065L,294358.713662726843480734270444248L,-375652.103744781457174865622725660L,-515294.603538293701463864634027804L,559135.002096716745614028582744977L,-573807.047525453610585931266552845L,549618.824580526435513037296888507L,-478887.003835384346308727596913795L,361128.640201200529819871681791872L,-210876.361395519397096697576213046L,65329.6504249870784980718399347567L,451495.880544879040721681546020825L,110499.901480575723015330989539086L,-383466.745497208795275334738812428L,740898.848057104120270710174368256L,-1149091.75435054290906094642289197L,1580150.26783697138600096689624544L,-2005654.92905073985646249252355818L,-2708763.67009413120621746435880787L,2908201.72927372718447002625528766L,-2946765.44444813794371917286615769L,2781148.11269059098737427202956574L,-2384093.39663520958092528612330343L,1768447.98131852197431978683102936L,-1017870.05560789702408649497338234L,312365.393287791635010966885954172L,2393994.36233563130400239309523833L,467718.664838518480509173587893600L,-1621617.92616224428999051753279163L,3127815.26558104819257499676632875L,-4838766.12833579051689048724884140L,6630914.74277800311346656802619455L,-8378630.10546022235727925710636202L,-11172933.8168800779420956146259595L,11894393.8866208877566350113617277L,-11932764.4246122169332712932363894L,11135847.0633710756420264209335143L,-9431327.10374937984533189212177945L,6913219.31256774676633387842144483L,-3939018.87111213665248526833893945L,1200990.94825390208291792328351048L,9944159.18937656004166204277905228L,1553616.40866971849688903068298102L,-5382402.49386758232992193246690828L,10367190.9805426603736431314446826L,-16004841.1193629987377381581734722L,21870747.6200663408846867762675070L,-27534583.9280344852414177892123131L,-36347405.7783988043955639455000198L,38439005.6636854371365746577159233L,-38268877.2795394368995436691172654L,35410431.7297277720998333234754154L,-29723410.8031808623553408800282902L,21600808.8033224759975191593297831L,-12219714.1183110634905917492978090L,3708881.57243553416135122600921153L,32530553.5277313806038902426391872L,4072208.78083312824398043491703518L,-14099364.3853086851352406872594018L,27127108.0344594547638769189189485L,-41810079.7027156770017801043253337L,57007183.8511003208817139849905897L,-71565967.2440820634869723000303943L,-93735971.4169279076155293112036187L,98631965.7603289049636771752529161L,-97632445.7899991292025153214131552L,89772380.7262534811807797818310072L,-74865172.7278954972864407646377200L,54071623.9921037166852352875378138L,-30433707.0433037473388616639774195L,9207838.90947079526971311626423715L,84252399.1178917707584484768425887L,8464554.52087309220404969135663494L,-29293847.3953856063879242730993398L,56314485.9266216256333138512168161L,-86689204.0669919244105266010922530L,118003781.731305655626832956273569L,-147827416.680925977495613696589558L,-192513147.721351940034797458187927L,201828541.154737163611342063052577L,-198958084.662139201685187741155821L,182121195.699470584877681513555213L,-151183261.019846168185821901597532L,108723885.433448154663365450237334L,-60980235.9644785638751284849089275L,18409745.9279675803008143034026629L,173579008.040798816862813935636874L,14009987.2614205818486641249446395L,-48470293.6111920485955354163719976L,93126672.7905020706970277346591442L,-143237582.651259359813567633906951L,194760678.366100539910694335731014L,-243635138.381143146759225318623430L,-316060617.061302252751401796129900L,330547394.992108126696626195789900L,-324954786.585200362722341650239621L,296579119.557649011071670380572701L,-245461539.902908626600064078408859L,176033541.985190529995001259711689L,-98510263.9025968190025762458127007L,29698612.0214036918296206353291033L,285574216.089864760395760424909149L,18520472.9971440268151755773510099L,-64064297.8165249170979689735221944L,123049458.542063047846362589559934L,-189175054.538597742971789805657440L,257064090.383903153910507711251948L,-321322125.159625655398438614019629L,-415966587.140108154748676550846752L,434457864.566401712358457934728575L,-426475689.682868293488319709574074L,388618068.542425343849921351592831L,-321121911.571418322830802585785085L,229952248.084734444435889748326636L,-128530065.896653362840548636028287L,38720400.5891950816457733366736187L,376273129.093925897524699340193693L,2918.94201406046655342380749232194L,-10153.1126506311435427862928709270L,19701.1234576608232484265757840342L,-30752.7438875332273301563259862823L,42666.4868723099909036399210892114L,-54794.6777831103641338888987361434L,-76571.7284492918722772685712232390L,84175.7873328052004119657167368890L,-87781.5369227124771689699070917894L,85712.3303321200693802791512936259L,-76339.9784104691562724415739946095L,58915.6059803384784721683530438948L,-35135.7387831617220532291122111606L,11041.8200016453701396031692686527L,66397.8202989225649519728370913695L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<16,long double>(long double* c)
 {
-initializer_list<double> lc={1.35465586136337391900281724085720e8,-4.60681378644386487887601593772952e8,8.58568449225997832682178025409777e8,1.62980773270973641453271705140326e9,-1.91373075459200241155012678369982e9,2.09118614227476511733595116081119e9,-2.15005805360944102792070842260647e9,2.09102196956134013566894213456307e9,-1.92558853554248175112214812646667e9,1.67352394854122819317382764185891e9,-1.36020107464601806028832611356813e9,1.01435436480691009151354550549362e9,3.49584899423826116223953835347481e8,-1.26514772220659452690528051068934e9,-6.66637158937146244809428227231107e8,-1.01468413496771250043602267236614e8,2.13698102776088093102068660799828e8,-7.26651643725632218446143588957117e8,1.35400497598124126723163176832037e9,2.56884012864949079504936425309200e9,-3.01529366070543441468830308377036e9,3.29366429732966960126439914579969e9,-3.38510199896387421751648681176189e9,3.29093246868170466804924787798564e9,-3.02951042107920902295667436712553e9,2.63211004982918810348222158226231e9,-2.13873281272469159670876550910865e9,1.59457537089069805630466550391776e9,5.49388050833458226665432022937496e8,-1.99469441956459511222788101258213e9,-1.04777723912036782956698488667852e9,-1.59451248582420824011235117577176e8,3.46179119632867422180361892421379e8,-1.17700185017008697081301055775435e9,2.19273022556746252397254266645035e9,4.15757248555689025008358777852561e9,-4.87830966579960689466631515614827e9,5.32653734381584282987804801012083e9,-5.47217522280448760559629396267116e9,5.31782203070486394434035762705560e9,-4.89355244890849863842168778451261e9,4.25019022200676523612320885483864e9,-3.45249335639224360380912322534260e9,2.57344885137091979793774453797781e9,8.86360944215550505897410531842017e8,-3.22941047851843465008671486532367e9,-1.69066473638409420223747677415076e9,-2.57233463555048944287832531353201e8,5.74550352097123966490317496104936e8,-1.95322920656860278575451117520258e9,3.63807852891860964783365161250257e9,6.89373052502165243535062220123914e9,-8.08563814693808035476157014207225e9,8.82487707688357463693020080489212e9,-9.06230806320038789805912521008274e9,8.80302126900001059567728268232927e9,-8.09751909260216097761661351814071e9,7.03043156111107887506025238554071e9,-5.70916490931232484133173905374457e9,4.25446069345865902331058192014210e9,1.46485258112289369546657485307289e9,-5.35657887415311429504642910236961e9,-2.79447771840905246784522408141932e9,-4.25086576174537446598152390992177e8,9.74350531965399648673486895160017e8,-3.31198693789156486956133689529064e9,6.16761497062241239427037027146678e9,1.16794850684560995531332926186623e10,-1.36934172240668320329142423294719e10,1.49390267320388378279973984039555e10,-1.53343263602179146851662059439186e10,1.48892810876267542234066159031190e10,-1.36905440569801971249550807740509e10,1.18821135186836820226130106236059e10,-9.64601175244933638677916751161119e9,7.18632240660337806607026679908251e9,2.47347410659889856199754404325688e9,-9.07838500087137476824864565407325e9,-4.71927430280217558808508779772449e9,-7.17722787110710841393697038135016e8,1.68363922014979923355250012144451e9,-5.72230730910881338628620162021075e9,1.06539436457305440044304428759058e10,2.01624459762315877644928415037318e10,-2.36298331196368946463066509860859e10,2.57684480966715521912678004604370e10,-2.64389235702123098815177105870213e10,2.56607613941237459370375526806370e10,-2.35854238545739746079186248142472e10,2.04625562001404622897978310961085e10,-1.66064781922920821670660719103858e10,1.23686818860366106212148268851797e10,4.25574146871824866742651408982429e9,-1.56775672703677721966172668039817e10,-8.12090209574214146370064147860485e9,-1.23478247569652544992292596943630e9,2.95639463017022167804279124185411e9,-1.00469570232252270154846115651337e10,1.87019319741559276409937502125899e10,3.53713735800732417604294801682623e10,-4.14383398482399553659640868019392e10,4.51700815076961454669342550974257e10,-4.63258223869437976662935740888650e10,4.49437206598976949895417732939619e10,-4.12927048006168631631220764500189e10,3.58125546471211940486365444011457e10,-2.90548498810793334479105981735519e10,2.16348138448418583494311990487511e10,7.44146145894016621881345639152575e9,-2.75127845540867692898851482503563e10,-1.42019377534288192757231171850883e10,-2.15893605512744324979998181939147e9,5.26250596088382863972559969775324e9,-1.78820157069352342352547256350806e10,3.32800603954485044892262678778178e10,6.29058590822657732171314199065487e10,-7.36681671297085854353791765694255e10,8.02702972936204879978802472497388e10,-8.22904397739252557112708882974213e10,7.98032485587854402700157178692675e10,-7.32925370648378550505202258751760e10,6.35435727433751900219644818654459e10,-5.15375934115427657250097008484006e10,3.83663189492253977706619700051552e10,1.31920441352421336121270057662428e10,-4.89458676379515329967477445807620e10,-2.51802659679264751729285847065493e10,-3.82702042588865281266649200559407e9,9.47565036430903449640665785945322e9,-3.21948671848913610296358894484459e10,5.99064314843571740652132410237003e10,1.13170276042200029252856885256574e11,-1.32484717799703171531639852430712e11,1.44302499393943397971000718016006e11,-1.47875817260534326171352825233778e11,1.43350721830768467417306323818018e11,-1.31607205015484831587561504088862e11,1.14063450821080379111863443581742e11,-9.24852549527192292873645902077266e10,6.88324903560049336554445266216987e10,2.36601170172989736586014144059391e10,-8.80833748595017561920392325998345e10,-4.51670881409721173239982665410738e10,-6.86331209603907212105420324350209e9,1.72273590250514430799784071040663e10,-5.85264483575631486546433171245547e10,1.08883438463478578592329689603019e11,2.05581338087554129386881965253243e11,-2.40584938694816488729366701882097e11,2.61948904020391694197375057803596e11,-2.68333992994466946743589072609106e11,2.60025938266161633796276775969695e11,-2.38640001381177234205884008005390e11,2.06761920804096751298756009823921e11,-1.67600285203898629145930001818213e11,1.24708077425131338242926468690478e11,4.28533180055518198129945324690095e10,-1.60057445931818799762669078474389e11,-8.18171957682459101307551161794265e10,-1.24299857653248033167547417981923e10,3.15760688895882210232311092035000e10,-1.07262890123747067473050192246173e11,1.99519643417147285924522119350000e11,3.76514298828259568627938630150477e11,-4.40478056514774096893247323736062e11,4.79423779431057655464464639163514e11,-4.90932241172344318313226379903544e11,4.75562479272391469294284223711539e11,-4.36302030664672334673287212196292e11,3.77903264429747490970688017621934e11,-3.06244199181637611363413617880987e11,2.27819298485906332866534475739444e11,7.82621932380898963083888259899838e10,-2.93223157785053847250225304628886e11,-1.49439347908153424422177016959302e11,-2.26991026417088687863842085937837e10,5.82744182866121185237413753647345e10,-1.97938096311649591028306775784207e11,3.68125245178410352250250551137856e11,6.94346133516680423273414827373877e11,-8.12051159771349038486919924147219e11,8.83553153296300335165238777670035e11,-9.04449702225396765096183193685514e11,8.75834658131935830574279554145252e11,-8.03269018580641923822604919955700e11,6.95546285962339095525897011935226e11,-5.63509250312167449070680108206096e11,4.19112300516614172597797992326083e11,1.43935745017730938301449359870104e11,-5.40893277127645259415525823057143e11,-2.74873153282338733162107263965912e11,-4.17442822953457160346539119222824e10,1.08174897022043774913286819217461e11,-3.67400605899282814785510162318200e11,6.83186806881003286667446139847790e11,1.28799617450494569820119924796588e12,-1.50588800346528894251233324261117e12,1.63795687158529932084820192240820e12,-1.67614079972666936202694987964882e12,1.62258031463885973255229434671086e12,-1.48768237169146738063542139692607e12,1.28781100997480481543659027712950e12,-1.04308452491538952171934709223484e12,7.75638475396162988558284058656091e11,2.66304976097499642959649999835576e11,-1.00360632572114631043108723233254e12,-5.08617894321550326460552733481756e11,-7.72290003597422071278287698319203e10,2.01805253626465064381466294889615e11,-6.85345516813585467883937519823857e11,1.27422371708031566412290390870519e12,2.40118080284000218343044217113823e12,-2.80659308193092434626324973666100e12,3.05179823944878247369561231758514e12,-3.12195241811468291255503432087730e12,3.02124483787884063649787683687501e12,-2.76924006275222852695470862187051e12,2.39653853871372854702821295987993e12,-1.94065559347154342384697985197274e12,1.44278749072165805433202804535348e12,4.95231982313350082869824911346474e11,-1.87146535130246210704964047871247e12,-9.45949168472138123493071668835338e11,-1.43609669765500883728244171793124e11,3.78085907103031653818728155860857e11,-1.28390527785669622145796474457798e12,2.38675847070303124394510000933157e12,4.49573191722506532847975381049802e12,-5.25335570894090752107205676158958e12,5.71064800265115961080076962954542e12,-5.84014964178037905034669307091516e12,5.65006034047515201420659947896795e12,-5.17730348572118309323158345172440e12,4.47933981801193598842710187260520e12,-3.62642590597336915425893963137719e12,2.69556698932695389456710812495211e12,9.25011744460729384465661449729955e11,-3.50477943848595192894071681087866e12,-1.76706004392648546320388881630852e12,-2.68223687272014518817131952143896e11,7.10965349508295549690815343928992e11,-2.41411433735432732830550508129189e12,4.48719912799502667824377591195344e12,8.44866336634231526657628551693527e12,-9.86986304382097783357418124210916e12,1.07259835049051542222792229295468e13,-1.09660216164093621653132163886639e13,1.06060289636498706211628516006678e13,-9.71592200995287362219538694348032e12,8.40398658134252900492184533167933e12,-6.80228297274856186883108458943108e12,5.05529595199178494848567152044560e12,1.73435763137283681440950207903501e12,-6.58790428096974039978572929006612e12,-3.31349220653666687252507413684109e12,-5.02880009315234999769261500204813e11};
+initializer_list<long double> lc={-0.0000860087281154927330045011934109437L,0.000301201025858510734060817014802249L,-0.000591882533303446538322321858278730L,-0.00134320865498405663402897715293922L,0.00179113212790711954134309996486811L,-0.00228390039394907081688497056049027L,0.00282240743783894291166244566491399L,-0.00341099702866126080624051286975663L,0.00405905867803314663771228285800044L,-0.00478408469783848064192513807548777L,0.00561754542684551727623189038079504L,-0.00661637025132124678638719733961760L,-0.00955113537980545835445688445786711L,0.000941954379958990301575337563043715L,0.00788304289286160393210333247353583L,0.0105507782028497156784842108627226L,-0.00316067767456515708132912105470300L,0.0110643818929192384729906148598038L,-0.0217266589346316787153336397444434L,-0.0491725156581664245289772936573561L,0.0654240581070763248538833253443915L,-0.0831654175379937942667271749474279L,0.102330133431156454465493106982535L,-0.122906342260583617059759583236110L,0.144924138523551820576418396620681L,-0.168404267442847162716261493284948L,0.193162339984405068379429956069509L,-0.218079819412784461414601178018716L,-0.233822383741530569358935165709866L,0.0345384972065130918900279757449482L,0.238277549956336707237507460113178L,0.138429472024527871227179606151220L,-0.0789475674058219179628486691898667L,0.276167274570752202114049998282694L,-0.541565224336711181573554015632895L,-1.21950157185994015386497397517227L,1.61585738992148729204491318317767L,-2.04238883744249391667899406251888L,2.49332190406572719734842006691267L,-2.96162516922748192534076775652596L,3.43656604693357205562008985293222L,-3.89831791706393821147902968164164L,4.30531196009115494243338873414012L,-4.56401046171157159705297927755671L,-3.56752044737193472975790463082409L,0.859125770830075222025521467930736L,4.46122011386333474502371181491176L,1.49349113494987410516072300191825L,-24.6793063443296700351956524858878L,86.1505777408194829128539604026463L,-168.283784155686429501281043662757L,-373.516180810901661395586942510811L,489.220114391507468447034578606508L,-608.762396277500719433887916571109L,727.632788749974960678495679977022L,-839.788976503121452440368617098615L,936.525075755079332869116630180049L,-1004.75061157232441020225694207722L,1024.70392938390170895800374565065L,-968.299453313543306871429554545720L,-516.464286734696132858616389227989L,265.372233062244852758060138654807L,803.256407658748898283263341721328L,171.874930847625755957571647105069L,-309.648102852781183901604542825912L,1079.65687865174778066568463235728L,-2104.39170011355137277779406039159L,-4633.99189042728149189020679354458L,6031.78442654999781631307880931384L,-7444.04668359101225373535952364981L,8801.73108221297053794552350646054L,-10014.9910983315024233575347605730L,10961.9763122190703741190059067157L,-11475.8459958964112481495853011693L,11336.4176514696103444836604904500L,-10287.7828385025007768489820377645L,-4971.55624675840268006954451047826L,3307.55766564289220074865686030936L,8132.13423595554541502647421791259L,1591.26729538278034773535589715622L,-3066.78956814211401908683316819782L,10680.8024552256587176333573072780L,-20774.1827193340704008112830415222L,-45397.1926888612057770434813640572L,58740.9694600209562392789455987263L,-71934.6256657447648784711812688936L,84207.7896738853252297332430930254L,-94594.4444084419618433891362543048L,101861.324565772403342224000729407L,-104461.322961681629832802301604568L,100594.548154471037337909582808009L,-88560.7947413367515545726935289887L,-40077.7948994473957905217334820318L,32547.2298648626605339886524277179L,67695.9898995032770632102466513057L,12538.8527774731860032639998668444L,-23920.4062128209223276307075165714L,83219.2564199346751364968869227571L,-161542.402708219242071757612247153L,-350530.246377416051454295108589167L,451117.273640292485250278014227284L,-548605.101483946225467148539913472L,636549.734799874016540282364647860L,-707170.643331190935645014244527362L,751082.215820621239936482488039607L,-757420.848199425846712266923551469L,714978.589348326631700889671454346L,-615381.776132970246884578502369283L,-266254.170267153084693619403843555L,252341.217358392664481978771791315L,459424.600806288329570342034217624L,82113.1590131575938208407185975715L,-147059.642392792634665223493365559L,511128.778445622184363699890048494L,-990428.421872914300408029114954199L,-2135658.39362244903378110188399734L,2735451.32587850287474716307037601L,-3306480.72286225666749107425312999L,3807536.96404722162228256252792632L,-4190601.42540648122568835006768555L,4400647.12903825779810835408619339L,-4378475.15957681439759705276742439L,4069719.88144619535218137938215477L,-3444220.05933435802881669139937620L,-1443884.34171376585848084953310591L,1543025.27604345422256189141854318L,2528237.17351743017817074342852123L,441062.185871402833331298801935428L,-714824.629385690797790806028863460L,2482393.97770164464582291222369873L,-4802777.05610156861909031583078734L,-10300048.1637678534635189012842728L,13139133.0966721108162316575524483L,-15800508.3651153072841841471715201L,18079680.1284684844205657898772512L,-19745839.7007169942606221688314395L,20546204.1959843452527509890695776L,-20226136.8376560603209612044101225L,18577012.3476946621921685173638956L,-15524325.9739610851911496714366209L,-6362337.67273104085483889584884582L,7465221.80680967128143762192875869L,11256439.0328918239671229898364453L,1930714.45401463360568508960562727L,-2759131.09033079858716584583904475L,9574870.52762462868414112190796551L,-18500598.4850197472097160419214215L,-39495096.2671434873540498855595981L,50210302.7006161139348209254624260L,-60124074.5224861750842790232088820L,68439615.1748811938303273040221809L,-74282043.9896568886061451366596845L,76729869.6370749256320383513471425L,-74907361.7374444773156702260120431L,68173169.3595012421224280542801800L,-56432508.5988522918409612886839815L,-22749874.0572872679891752863739801L,28700643.0107223863816954458373314L,40550722.7476155937318441626585707L,6871496.31919343849848106191404814L,-8497625.18339264514402285653275192L,29471487.4410621459304710055142335L,-56883564.4367954213113677433351276L,-120980602.334657988123750791785905L,153378479.832959688758108961219330L,-183032340.752255868355295367853261L,207480804.398600665674823924493418L,-224082861.464502008761406258430257L,230146368.978576844920923934092902L,-223238582.264738634423738820931062L,201761599.540688133947897449285409L,-165834362.359151010734863304234322L,-66054237.6671970766144974521053291L,88104843.4539216177814107766400735L,118375850.237446631006175855472387L,19884743.3883730476504525627135980L,-20980096.7130229472218197007853765L,72729170.6344235506405367160216273L,-140256257.990422605861908928142902L,-297416905.337501624070479128414960L,376245864.280159865593784615782726L,-447785904.060754239501407652118001L,505961986.145849323400923698264986L,-544375305.014050220857783755931840L,556673364.560288480410714988911450L,-537351897.926909259477820246672281L,483146167.266350263758839580669118L,-395046860.916202746935782535085136L,-155990013.253320757346191828213403L,216963769.726729095806848462173617L,280636140.162189677600165866395107L,46846779.3138963482388813640928180L,-66936838.2858704885676605865844245L,231904548.140058343471174334942565L,-446739494.906659859672910516970948L,-943803948.153444818461467519517248L,1190720384.41978196014756469387057L,-1412409571.63723266115642395781913L,1589556757.95997055533089212492793L,-1702294261.79080371940717123321555L,1731560161.89417243130510185946547L,-1661742878.94551085093141826679642L,1484943191.70438984409483762003943L,-1206750740.72315505010486523113241L,-471731994.761275465750712521845640L,689968300.417857515228819630748934L,852471948.214971990145014060471155L,141284437.425037785865841797454712L,-1.56159944029677413485531929915134L,5.45733698276860516740835990227317L,-10.6824314344582373318953419129530L,-23.8929539094519736922707204853210L,31.4863450872610418949737600627377L,-39.5033930529018667497513890421409L,47.7395575455891771581024061722805L,-55.9200905215873326659850066314911L,63.6282727872933491089457274803796L,-70.1728550016044841010498999366720L,74.3456019844931959593612592018640L,-74.0268660301365524794092790947444L,-45.9471119443570340311325300139603L,16.8991685404294809498472330336197L,65.8139917162779577494607733863104L,16.4593244865039456813024165795452L,-41697253.5153719175283791080522028L,144495997.491073630671159523587848L,-278477997.866560446449488245621132L,-589213471.565781203578862857748480L,744177939.206935267130206644631902L,-883917523.526770120543080859876424L,996378571.203500598908627036540315L,-1069042083.18491397510340106670582L,1089727989.36490741571409605543409L,-1048225183.15609936593923833110075L,938995415.809294777113379316295467L,-764936807.754069966229328219002141L,-300210159.346365466066523132205849L,430373303.001562735991379118814291L,541561630.884992855357607288146681L,90009633.8864807817457627088024306L,-87011219.2153675801239625306366056L,301412944.805826195866479295487257L,-580500275.641628312583175040591987L,-1225378681.01021419366512552500001L,1545031075.97700058648731218006712L,-1831337459.25773716918702767402924L,2059221161.50832995565578751575464L,-2203025012.48017413373374692804595L,2238322462.01850696158717311375511L,-2145370224.29480687162880810033149L,1914587738.17171523358583738412445L,-1553877495.41825312345105428100196L,-606142008.190311447020855655051564L,896238209.789246793217325979798234L,1096391674.25986529342545756818016L,181437109.972702279064207663819927L};
 copy(lc.begin(),lc.end(),c);
 
 }
-- 
2.43.0


From e6259ba6d11b07550719cad27ae243ec01f0fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:26 +0000
Subject: [PATCH 35/40] fix: printing a banded matrix reads the loop index
 before it is initialised

---
 common/include/fortranRectangularArray.hpp        | 2 +-
 common/include/fortranRectangularComplexArray.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/fortranRectangularArray.hpp b/common/include/fortranRectangularArray.hpp
index c31c02b..a47fdf7 100644
--- a/common/include/fortranRectangularArray.hpp
+++ b/common/include/fortranRectangularArray.hpp
@@ -108,7 +108,7 @@ public:
     cout<<s<<endl;
     for(int i=1;i<=n;i++)
       {
-  	for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+  	for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
   	  cout<<operator()(i,j)<<" ";
   	cout<<endl;
       }
diff --git a/common/include/fortranRectangularComplexArray.hpp b/common/include/fortranRectangularComplexArray.hpp
index 6959aeb..29879a1 100644
--- a/common/include/fortranRectangularComplexArray.hpp
+++ b/common/include/fortranRectangularComplexArray.hpp
@@ -106,14 +106,14 @@ namespace odes{
       cout<<s<<endl;
       for(int i=1;i<=n;i++)
     	{
-    	  for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+    	  for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
     	    cout<<Re(i,j)<<" ";
     	  cout<<endl;
     	}
       cout<<"---"<<endl;
       for(int i=1;i<=n;i++)
     	{
-    	  for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+    	  for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
     	    cout<<Im(i,j)<<" ";
     	  cout<<endl;
     	}    
-- 
2.43.0


From 4105759d06a8c8144cf731b68ccf6f15bb830b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:26 +0000
Subject: [PATCH 36/40] fix: counters read through the public interface have a
 value before the first integration

---
 Radau5-NG/include/Radau5cc.hpp        | 3 +++
 Rock4-L/include/Rock4L.hpp            | 2 ++
 Rock4-NG/include/Rock4.hpp            | 2 ++
 Rodas-NG/include/Rodascc.hpp          | 3 +++
 SymplecticRK/include/SymplecticRK.hpp | 1 +
 5 files changed, 11 insertions(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 7bb05b6..3f2d834 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -375,6 +375,9 @@ namespace odes
       gustafssonTest=true;
     
       nmax=10000;
+      // counters have a value before the first integration:
+      naccpt=0; nrejct=0; njac=0; nstep=0; ndec=0; newt=0; nfonccalled=0;
+      h=0.0; firstAcceptedStep=0.0;
 
       setTestPolicy(_sameTestValue,_atol,_rtol);
 
diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index 4b32bcd..6c51e3b 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -250,6 +250,8 @@ namespace odes{
       splitBigArray();
        // do not allocate Vtemp. 
       uround=1.e-16;
+      // counters have a value before the first integration:
+      nstagesmax=0; funccal=0; nsteps=0; t=0.0;
     }
     //! destructor
     ~Rock4L()
diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 2b0a620..09a52cd 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -145,6 +145,8 @@ namespace odes {
       temp=allocDoubleArray(size); 
       // do not allocate Vtemp.
       uround=1.e-16; atol=1.e-5; rtol=1.e-5;
+      // counters have a value before the first integration:
+      mdeg=0; funccal=0; nrej=0; nsteps=0; nacc=0; hlast=0.0;
       
     }
     //! destructor
diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index fb2214f..83fe364 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -265,6 +265,9 @@ namespace odes
       gustafssonTest=true;
     
       nmax=10000;
+      // counters have a value before the first integration:
+      naccpt=0; nrejct=0; njac=0; nstep=0; ndec=0;
+      h=0.0; firstAcceptedStep=0.0;
 
       setTestPolicy(_sameTestValue,_atol,_rtol);
 
diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index 454d95e..c8953ac 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -36,6 +36,7 @@ public:
     for(int i=0;i<n;i++) 
       e[i]=0.0; //for Compensated Summation.
     Old_h=1.0;
+    iter=0;
    }
   //! destructor
   ~SymplecticRK()
-- 
2.43.0


From eb52fb01564214958748794414c4048f58560f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:26 +0000
Subject: [PATCH 37/40] fix: Sdirkl: no leak when the initialisation of the
 operator throws

---
 SDIRKL/include/Sdirkl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SDIRKL/include/Sdirkl.hpp b/SDIRKL/include/Sdirkl.hpp
index 1e58917..e5c6946 100644
--- a/SDIRKL/include/Sdirkl.hpp
+++ b/SDIRKL/include/Sdirkl.hpp
@@ -112,6 +112,9 @@ public:
   //!\param _affine true iff we solve du/dt=Au+B and B!=0.
   Sdirkl(int _n, double _dt,bool _affine=false): n(_n),dt(_dt),affine(_affine)
   {
+    diag=RK.A[0][0];
+    // (may throw: nothing is allocated yet)
+    Op.init(n,dt*diag);
     if(affine)
       z=new double[n*(nstage+2)];
     else
@@ -123,8 +126,6 @@ public:
       }
     Work=z+n*nstage;
     if(affine) Work1=Work+n;
-    diag=RK.A[0][0];
-    Op.init(n,dt*diag);
     for(int i=0;i<nstage;i++)
 #include "Ivdep.hpp"
       for(int j=0;j<=i;j++)
-- 
2.43.0


From 60a8d3b7cc1795a47960201f0ab4d442302a602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:33 +0000
Subject: [PATCH 38/40] fix: Rock4L.hpp keeps its line endings (converted by an
 earlier fix)

---
 Rock4-L/include/Rock4L.hpp | 768 ++++++++++++++++++-------------------
 1 file changed, 384 insertions(+), 384 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index 6c51e3b..d306898 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -1,384 +1,384 @@
-#ifndef Rock4__h
-#define Rock4__h
-#include "Rock4Coeffs.hpp"
-#include "MacrosForCompilers.hpp"
-#include "AllocateDestroyVector.hpp"
-#include "OdesException.hpp"
-#include "switchAdr.hpp"
-#include <cmath>
-#include <cstdlib>
-using namespace std;
-namespace odes{
-///////////////////////////////////////////////////////////////////////////
-/// A replacement for A. Abdulle rock4.f code for Rock4 method.
-///  *We treat here linear and affine case* ie RHS must be:
-///        x-> Ax
-///    or 
-///        x-> Ax+ B with B independent of time.
-///
-/// Template arguments:
-///      - Fonc: Object function which defines the problem.
-///      - Affine: true iff we treat the affine case.
-///              
-///  The class Fonc must define the following public methods:
-///      1) contructor:  
-///                Fonc(int n) n: size (number of unknowns).
-///      2) destructor.
-///      3)  double rho()
-///            return spectral radius of A: 
-///      4) int size()        
-///            return n, the size of vectors (see contructor).
-///      5) void operator()(double * in, double * s, 
-///                            double a, double b,double *out)
-///           compute out[]= A*a* in[] +b s[]
-///      6) void operator()(double * in, double * s, 
-///                             double a, double b, double *g,double *out)
-///           compute out[]=A*a*in[]+ b*s[] +g[]
-///      7) void operator()(double * in, double * s,
-///                              double a, double b,double c,double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]
-///      8)  void operator()(double * in, double * s, 
-///                              double a, double b,double c,double *g,
-///                              double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
-///
-///    where in[], s[], g[] and out[] are vectors of size n.        
-//////////////////////////////////////////////////////////////////////////
-  template<class Fonc,bool Affine=false> class Rock4L
-  {
-    Fonc* Fp;
-    const int size;
-    double atol,rtol;//tolerances for time steps adaptation.
-    double uround,told;
-    double t; 
-    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
-    double *BigArray;
-    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
-    Rock4Coeffs Coeffs;
-    double ac[5][4],bc[5],hc[5];
-
-    //! We want to compute polynomial for the 2nd formula in Horner form.
-    //! so we must compute the coefficients in this form.
-    void makeHornerCoeffs()
-    {
-      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
-      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
-	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
-      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
-	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
-      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
-      hc[0]=1.;
-    } 
-    //! make sub arrays.
-    inline void splitBigArray()
-    {
-      k1=BigArray; g0=k1+sizesplit; g1=g0+sizesplit; g2=g1+sizesplit;
-    }
-    //! permutate 3 adresses g0,g1,g2.
-    //! \param g0 
-    //! \param g1 
-    //! \param g2
-    inline void permut3(double *&g0,double *&g1,double *&g2)
-    {
-      double *temp=g0;
-      g0=g1; g1=g2;g2=temp;
-    }
-   
-    //! find degree of formula.
-    void mdegre(int& mdeg)
-    {
-      mp[2]=1;
-      //-------- Find the degree.--------      
-      for(int i=1;i<=50;i++)
-	{
-	  if ((Coeffs.ms(i)/mdeg)>=1)
-	    {
-	      mdeg=Coeffs.ms(i);
-	      mp[1]=i;
-	      break;
-	    }
-	  else
-	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
-	}
-    }
-    //! The heart of the computation; perform a dt step, in the linear
-    //! case.
-    //! \param y IN/OUT.
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay
-     void kernel1(double *y,double dt)
-    {
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=dt*Coeffs.fpa(mz,1);
-      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
-      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
-      ac[4][3]=dt*Coeffs.fpa(mz,6);
-      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
-      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-
-      //
- 
-      F(g0,g0,hc[4],hc[3],k1);
-      F(k1,g0,1.0,hc[2],temp);
-      F(temp,g0,1.0,hc[1],k1);
-      F(k1,g0,1.0,hc[0],y);
-      //
-      funccal+=4;
-
-    }
-    //! The heart of the computation; perform a dt step, in the affine
-    //! case.
-    //! \param y IN/OUT.
-    //! \param b the constant in time part of the RHS
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay + B, with a constant B.
-    void kernel2(double *y,double *b,double dt)
-    {
-   
-      //g1=temp;
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=Coeffs.fpa(mz,1);
-      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
-      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
-      ac[4][3]=Coeffs.fpa(mz,6);
-      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
-      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-      double dt2=dt*dt, dt3= dt2*dt;
-      //
-      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
-
-      // now we have a polynomial of degree 3 to evaluate: 
-      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
-      F(g1,k1,1.0,hc[2]*dt,g2);
-      F(g2,k1,1.0,hc[1],g1);
-      // finish:
-      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
-#include "Ivdep.hpp"
-      for(int i=0;i<size;i++)
-	y[i]=g0[i]+g1[i];
-      
-      funccal+=4;
-
-    }
-
-  public:
-    //! constructor
-    //! \param  F RHS.
-    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
-    {
-      int bk=BLOCK_FACTOR/sizeof(double);
-      sizesplit=bk*((size+bk-1)/bk);
-      BigArray=allocDoubleArray(4*sizesplit);
-      splitBigArray();
-       // do not allocate Vtemp. 
-      uround=1.e-16;
-      // counters have a value before the first integration:
-      nstagesmax=0; funccal=0; nsteps=0; t=0.0;
-    }
-    //! destructor
-    ~Rock4L()
-    {
-      //Suppress(BigArray);
-      destroyDoubleArray(BigArray);
-    }
-    
-    //! number of stages used (we count both methods).
-    inline int NbStages() const {return nstagesmax;}
-    //! number of RHS computed
-    inline int NbRhsComputed() const {return funccal;}
-    //! number of steps performed.
-    inline int NbSteps() const {return nsteps;}
-    //! return a correctly aligned vector, for unknowns.
-    //inline double* alloc_vec() {return Allocate(size);} 
-    //! delete a vector allocated with alloc_vec()
-    //inline void delete_vec(double * v){Suppress(v);}
-    //! number of unknowns.
-    inline int nbUnkn() const {return size;}
-    //! value of "time":
-    inline double Time() const {return t;}
-    
-    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note  we solve dy/dt= Ay.
-    void operator()(double *y,double t0,double tend, double _h)
-    {
-      if(Affine)
-	throw OdesException("Rock4::operator() called as affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  // (compare before converting: the value may not fit an int)
-	  const double dmdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  mdeg= dmdeg<153.e0? static_cast<int>(dmdeg): 153;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",dmdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  const bool laststep=h>=abs(tend-t);
-	  kernel1(y,h);
-	  t= laststep? tend: t+h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param b RHS.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note we solve dy/dt= Ay+b.
-    void operator()(double *y,double *b, double t0,double tend, double _h)
-    {
-      if(!Affine)
-	throw OdesException("Rock4::operator() called as not affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  // (compare before converting: the value may not fit an int)
-	  const double dmdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  mdeg= dmdeg<153.e0? static_cast<int>(dmdeg): 153;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",dmdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  const bool laststep=h>=abs(tend-t);
-	  kernel2(y,b,h);
-	  t= laststep? tend: t+h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-  };
-};
-
-#endif
+#ifndef Rock4__h
+#define Rock4__h
+#include "Rock4Coeffs.hpp"
+#include "MacrosForCompilers.hpp"
+#include "AllocateDestroyVector.hpp"
+#include "OdesException.hpp"
+#include "switchAdr.hpp"
+#include <cmath>
+#include <cstdlib>
+using namespace std;
+namespace odes{
+///////////////////////////////////////////////////////////////////////////
+/// A replacement for A. Abdulle rock4.f code for Rock4 method.
+///  *We treat here linear and affine case* ie RHS must be:
+///        x-> Ax
+///    or 
+///        x-> Ax+ B with B independent of time.
+///
+/// Template arguments:
+///      - Fonc: Object function which defines the problem.
+///      - Affine: true iff we treat the affine case.
+///              
+///  The class Fonc must define the following public methods:
+///      1) contructor:  
+///                Fonc(int n) n: size (number of unknowns).
+///      2) destructor.
+///      3)  double rho()
+///            return spectral radius of A: 
+///      4) int size()        
+///            return n, the size of vectors (see contructor).
+///      5) void operator()(double * in, double * s, 
+///                            double a, double b,double *out)
+///           compute out[]= A*a* in[] +b s[]
+///      6) void operator()(double * in, double * s, 
+///                             double a, double b, double *g,double *out)
+///           compute out[]=A*a*in[]+ b*s[] +g[]
+///      7) void operator()(double * in, double * s,
+///                              double a, double b,double c,double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]
+///      8)  void operator()(double * in, double * s, 
+///                              double a, double b,double c,double *g,
+///                              double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
+///
+///    where in[], s[], g[] and out[] are vectors of size n.        
+//////////////////////////////////////////////////////////////////////////
+  template<class Fonc,bool Affine=false> class Rock4L
+  {
+    Fonc* Fp;
+    const int size;
+    double atol,rtol;//tolerances for time steps adaptation.
+    double uround,told;
+    double t; 
+    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
+    double *BigArray;
+    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
+    Rock4Coeffs Coeffs;
+    double ac[5][4],bc[5],hc[5];
+
+    //! We want to compute polynomial for the 2nd formula in Horner form.
+    //! so we must compute the coefficients in this form.
+    void makeHornerCoeffs()
+    {
+      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
+      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
+	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
+      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
+	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
+      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
+      hc[0]=1.;
+    } 
+    //! make sub arrays.
+    inline void splitBigArray()
+    {
+      k1=BigArray; g0=k1+sizesplit; g1=g0+sizesplit; g2=g1+sizesplit;
+    }
+    //! permutate 3 adresses g0,g1,g2.
+    //! \param g0 
+    //! \param g1 
+    //! \param g2
+    inline void permut3(double *&g0,double *&g1,double *&g2)
+    {
+      double *temp=g0;
+      g0=g1; g1=g2;g2=temp;
+    }
+   
+    //! find degree of formula.
+    void mdegre(int& mdeg)
+    {
+      mp[2]=1;
+      //-------- Find the degree.--------      
+      for(int i=1;i<=50;i++)
+	{
+	  if ((Coeffs.ms(i)/mdeg)>=1)
+	    {
+	      mdeg=Coeffs.ms(i);
+	      mp[1]=i;
+	      break;
+	    }
+	  else
+	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
+	}
+    }
+    //! The heart of the computation; perform a dt step, in the linear
+    //! case.
+    //! \param y IN/OUT.
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay
+     void kernel1(double *y,double dt)
+    {
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=dt*Coeffs.fpa(mz,1);
+      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
+      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
+      ac[4][3]=dt*Coeffs.fpa(mz,6);
+      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
+      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+
+      //
+ 
+      F(g0,g0,hc[4],hc[3],k1);
+      F(k1,g0,1.0,hc[2],temp);
+      F(temp,g0,1.0,hc[1],k1);
+      F(k1,g0,1.0,hc[0],y);
+      //
+      funccal+=4;
+
+    }
+    //! The heart of the computation; perform a dt step, in the affine
+    //! case.
+    //! \param y IN/OUT.
+    //! \param b the constant in time part of the RHS
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay + B, with a constant B.
+    void kernel2(double *y,double *b,double dt)
+    {
+   
+      //g1=temp;
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=Coeffs.fpa(mz,1);
+      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
+      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
+      ac[4][3]=Coeffs.fpa(mz,6);
+      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
+      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+      double dt2=dt*dt, dt3= dt2*dt;
+      //
+      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
+
+      // now we have a polynomial of degree 3 to evaluate: 
+      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
+      F(g1,k1,1.0,hc[2]*dt,g2);
+      F(g2,k1,1.0,hc[1],g1);
+      // finish:
+      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
+#include "Ivdep.hpp"
+      for(int i=0;i<size;i++)
+	y[i]=g0[i]+g1[i];
+      
+      funccal+=4;
+
+    }
+
+  public:
+    //! constructor
+    //! \param  F RHS.
+    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
+    {
+      int bk=BLOCK_FACTOR/sizeof(double);
+      sizesplit=bk*((size+bk-1)/bk);
+      BigArray=allocDoubleArray(4*sizesplit);
+      splitBigArray();
+       // do not allocate Vtemp. 
+      uround=1.e-16;
+      // counters have a value before the first integration:
+      nstagesmax=0; funccal=0; nsteps=0; t=0.0;
+    }
+    //! destructor
+    ~Rock4L()
+    {
+      //Suppress(BigArray);
+      destroyDoubleArray(BigArray);
+    }
+    
+    //! number of stages used (we count both methods).
+    inline int NbStages() const {return nstagesmax;}
+    //! number of RHS computed
+    inline int NbRhsComputed() const {return funccal;}
+    //! number of steps performed.
+    inline int NbSteps() const {return nsteps;}
+    //! return a correctly aligned vector, for unknowns.
+    //inline double* alloc_vec() {return Allocate(size);} 
+    //! delete a vector allocated with alloc_vec()
+    //inline void delete_vec(double * v){Suppress(v);}
+    //! number of unknowns.
+    inline int nbUnkn() const {return size;}
+    //! value of "time":
+    inline double Time() const {return t;}
+    
+    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note  we solve dy/dt= Ay.
+    void operator()(double *y,double t0,double tend, double _h)
+    {
+      if(Affine)
+	throw OdesException("Rock4::operator() called as affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  // (compare before converting: the value may not fit an int)
+	  const double dmdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  mdeg= dmdeg<153.e0? static_cast<int>(dmdeg): 153;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",dmdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  const bool laststep=h>=abs(tend-t);
+	  kernel1(y,h);
+	  t= laststep? tend: t+h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param b RHS.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note we solve dy/dt= Ay+b.
+    void operator()(double *y,double *b, double t0,double tend, double _h)
+    {
+      if(!Affine)
+	throw OdesException("Rock4::operator() called as not affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  // (compare before converting: the value may not fit an int)
+	  const double dmdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  mdeg= dmdeg<153.e0? static_cast<int>(dmdeg): 153;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",dmdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  const bool laststep=h>=abs(tend-t);
+	  kernel2(y,b,h);
+	  t= laststep? tend: t+h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+  };
+};
+
+#endif
-- 
2.43.0


From 8dfe93c2cc1e9e1c1ef02d5ea618a0ec8375c2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:24 +0000
Subject: [PATCH 39/40] fix: Rodas logs rejected steps and the step size they
 lead to

---
 Rodas-NG/include/Rodascc.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 83fe364..e0cbf7b 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -465,7 +465,10 @@ namespace odes
 		{
 		  reject=true;
 		  last=false;
-		  h=hnew;
+#ifdef LOGRODAS
+		  Logger.put(x,nstep,rejectedStep,hnew);
+#endif
+		  seth(x,hnew);
 		  if(naccpt>=1) ++nrejct;
 		  if(nstep>nmax)
 		    throw OdesException("Rodas(): nstep too large:",nstep);
-- 
2.43.0


From 87002d69d66f24947ef1cc65e1695121797c091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:24 +0000
Subject: [PATCH 40/40] fix: Rock4 empties its log at the start of an
 integration

---
 Rock4-NG/include/Rock4.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 09a52cd..3e136b0 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -190,6 +190,9 @@ namespace odes {
     //! \note *BEWARE* adress y can be changed!
     void operator()(double *&y,double t0,double tend, double _h)
     {
+#ifdef LOGROCK4
+      Logit.clear();
+#endif
       int mdego=0; nsteps=0;
       nrej=0; nacc=0;nstagesmax=0;
       double eigmax=0.0;
-- 
2.43.0

