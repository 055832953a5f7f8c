From 0b8f27d833b80e98c756d6786d54dd058ecdfc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 01/64] fix: CG builds its search directions from the
 preconditioned residual

---
 pykrylov/cg/cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index d733de6..61abd7d 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -101,7 +101,7 @@ class CG( KrylovMethod ):
         self.residHistory.append(self.residNorm0)
         threshold = max(self.abstol, self.reltol * self.residNorm0)
 
-        p = -r   # Initial search direction (copy not to overwrite rhs if x=0)
+        p = -y   # Initial search direction (copy not to overwrite rhs if x=0)
 
         hdr_fmt = '%6s  %7s  %8s'
         hdr = hdr_fmt % ('Matvec', 'Resid', 'Curv')
@@ -148,7 +148,7 @@ class CG( KrylovMethod ):
             # Update search direction
             beta = ry_next/ry
             p *= beta
-            p -= r
+            p -= y
 
             ry = ry_next
             residNorm = np.abs(np.sqrt(ry))
-- 
2.43.0


From 5aa0203c67787a0ed2c9fffaaa2f151dffccccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 02/64] fix: CG.solve forgets the outcome of the previous solve

---
 pykrylov/cg/cg.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 61abd7d..efbbebd 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -61,6 +61,14 @@ class CG( KrylovMethod ):
         n = rhs.shape[0]
         nMatvec = 0
         definite = True
+
+        # Forget the outcome of any previous solve.
+        self.converged = False
+        self.infiniteDescent = None
+        self.resids = []
+        self.iterates = []
+        self.residHistory = []
+
         check_sym = kwargs.get('check_symmetric', False)
         check_curvature = kwargs.get('check_curvature', True)
         store_resids = kwargs.get('store_resids', False)
-- 
2.43.0


From 7e8c7143bc7c865f4ee362080331942c2f76e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 03/64] fix: CGS counts the product with the initial guess and
 respects matvec_max

---
 pykrylov/cgs/cgs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index a878699..c4443c1 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -58,6 +58,7 @@ class CGS( KrylovMethod ):
         r0 = rhs  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
+            nMatvec += 1
 
         rho = np.dot(r0,r0)
         residNorm = np.abs(np.sqrt(rho))
@@ -66,7 +67,8 @@ class CGS( KrylovMethod ):
         self.logger.info('Initial residual = %8.2e\n' % self.residNorm0)
         self.logger.info('Threshold = %8.2e\n' % threshold)
 
-        finished = (residNorm <= threshold or nMatvec >= matvec_max)
+        # Each iteration performs two operator-vector products.
+        finished = (residNorm <= threshold or nMatvec + 1 >= matvec_max)
 
         if not finished:
             r = r0.copy()   # Initial residual vector
@@ -98,7 +100,7 @@ class CGS( KrylovMethod ):
             # Update residual norm and check convergence
             residNorm = np.linalg.norm(r)
 
-            if residNorm <= threshold or nMatvec >= matvec_max:
+            if residNorm <= threshold or nMatvec + 1 >= matvec_max:
                 finished = True
                 continue
 
-- 
2.43.0


From 882e193d104721a6b66551cdcbcce52e044e07fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 04/64] fix: TFQMR counts the product with the initial guess

---
 pykrylov/tfqmr/tfqmr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 5f2e55d..ee3bcea 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -57,6 +57,7 @@ class TFQMR( KrylovMethod ):
         r0 = rhs  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
+            nMatvec += 1
 
         rho = np.dot(r0,r0)
         residNorm = np.abs(np.sqrt(rho))
-- 
2.43.0


From 1885b458efea9c5ad26b18e2d6aa0cbbc11d8497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 05/64] fix: Bi-CGSTAB returns the solution its final residual
 belongs to

---
 pykrylov/bicgstab/bicgstab.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 447e901..6127ea6 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -114,6 +114,7 @@ class BiCGSTAB( KrylovMethod ):
                 continue
 
             if nMatvec >= matvec_max:
+                x += alpha * q
                 finished = True
                 continue
 
-- 
2.43.0


From 7f031ee6c718f8797145039ce34778782054a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 06/64] fix: TFQMR handles a solve that needs no iteration

---
 pykrylov/tfqmr/tfqmr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index ee3bcea..c316c8b 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -67,6 +67,7 @@ class TFQMR( KrylovMethod ):
         self.logger.info('Threshold = %8.2e' % threshold)
 
         finished = (residNorm <= threshold or nMatvec >= matvec_max)
+        m = 0
 
         if not finished:
             y = r0.copy()   # Initial residual vector
@@ -154,7 +155,7 @@ class TFQMR( KrylovMethod ):
             self.logger.info('%5d  %8.2e' % (nMatvec, residNorm))
 
 
-        self.converged = residNorm * np.sqrt(m+1) < threshold
+        self.converged = residNorm * np.sqrt(m+1) <= threshold
         self.nMatvec = nMatvec
         self.bestSolution = self.x = x
         self.residNorm = residNorm
-- 
2.43.0


From 381d406fa251ec3a8fb5f36758ac6ec17d18f186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 07/64] fix: SYMMLQ applies its operator through self.op

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index a756d45..4b5f86e 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -159,7 +159,7 @@ class Symmlq(KrylovMethod) :
             s     = 1.0 / beta1
             v     = s * y
 
-            y = self.matvec(v) ; nMatvec += 1
+            y = self.op * v ; nMatvec += 1
             if check:
                 r2 = self.op * y  # Do not count this matrix-vector product
                 s = np.dot(y,y)
-- 
2.43.0


From 8b3f74cdc17d890a221e66ee28874b49d4d4024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 08/64] fix: SYMMLQ ends every solve with a consistent outcome

A zero right-hand side, an early diagnosis or a small budget ended in an
UnboundLocalError, the budget was tested out of step with the quantities
it stops on, and the outcome was never recorded.
---
 pykrylov/symmlq/symmlq.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 4b5f86e..afef043 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -118,7 +118,9 @@ class Symmlq(KrylovMethod) :
         istop  = 0 ; ynorm  = 0 ; w = np.zeros(n) ; acond = 0
         itn    = 0 ; xnorm  = 0 ; x = np.zeros(n) ; done=False
         anorm  = 0 ; rnorm  = 0 ; v = np.zeros(n)
+        x1cg   = 0 ; bstep  = 0
 
+        self.iterates = []
         if store_iterates:
             self.iterates.append(x.copy())
 
@@ -148,7 +150,7 @@ class Symmlq(KrylovMethod) :
         # Test for an indefinite preconditioner.
         # If rhs = 0 exactly, stop with x = 0.
 
-        if beta1 <  0:
+        if not beta1 >= 0:
             istop = 8
             done = True
         if beta1 == 0:
@@ -218,12 +220,14 @@ class Symmlq(KrylovMethod) :
 
         # end  if beta1 > 0
 
+        cgnorm = lqnorm = qrnorm = beta1
+
         head1 = '   Itn     x(1)(cg)  normr(cg)  r(minres)'
         head2 = '    bstep    anorm    acond'
         self.logger.info(head1 + head2)
 
         str1 = '%6g %12.5e %10.3e' % (itn, x1cg, cgnorm)
-        str2 = ' %10.3e  %8.1e' %    (qrnorm, bstep/beta1)
+        str2 = ' %10.3e  %8.1e' %    (qrnorm, bstep)
         self.logger.info(str1 + str2)
 
         # ------------------------------------------------------------------
@@ -232,7 +236,7 @@ class Symmlq(KrylovMethod) :
         # Estimate various norms and test for convergence.
 
         if not done:
-            while nMatvec < matvec_max:
+            while True:
                 itn    = itn  +  1
                 anorm  = np.sqrt(tnorm)
                 ynorm  = np.sqrt(ynorm2)
@@ -269,7 +273,7 @@ class Symmlq(KrylovMethod) :
                 # (Abar = const * I).
 
                 if istop == 0:
-                    if nMatvec >= matvec_max : istop = 5
+                    if nMatvec+1 >= matvec_max : istop = 5
                     if acond   >= 0.1/eps    : istop = 4
                     if epsx    >= beta1      : istop = 3
                     if cgnorm  <= epsx       : istop = 2
@@ -366,12 +370,13 @@ class Symmlq(KrylovMethod) :
 
         # Add the step along b.
 
-        bstep  = bstep / beta1
-        if self.precon is not None:
-            y = self.precon * rhs
-        else:
-            y = rhs.copy()
-        x += bstep * y
+        if beta1 > 0:
+            bstep  = bstep / beta1
+            if self.precon is not None:
+                y = self.precon * rhs
+            else:
+                y = rhs.copy()
+            x += bstep * y
 
         # Compute the final residual,  r1 = b - (A - shift*I)*x.
 
@@ -393,6 +398,8 @@ class Symmlq(KrylovMethod) :
         self.logger.info(last + fmt % (rnorm, xnorm))
         self.logger.info(last + msg[istop])
 
+        self.istop = istop ; self.itn = itn
+        self.converged = istop in [-1,0,1,2]
         self.nMatvec = nMatvec
         self.bestSolution = x ; self.solutionNorm = xnorm
         self.x = self.bestSolution ; self.xNorm = xnorm
-- 
2.43.0


From 6b894f53b901abef423c106636d5ecef05c2e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 09/64] fix: MINRES prints nothing along the iterations unless
 show is set

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index ab9bb5d..3207c82 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -380,7 +380,7 @@ class Minres(KrylovMethod):
 
                 if istop > 0: break
 
-                if (itn % 10)==0: print ' '
+                if show and (itn % 10)==0: print ' '
 
         # Display final status.
 
-- 
2.43.0


From 140a5ea5f511adef02d37bc18c349d140f757a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 10/64] fix: MINRES uses the preconditioner given to its
 constructor

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 3207c82..44289f8 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -118,7 +118,7 @@ class Minres(KrylovMethod):
         n = b.shape[0]
 
         # Read keyword arguments
-        precon = kwargs.get('precon', None)
+        precon = kwargs.get('precon', self.precon)
         shift  = kwargs.get('shift',  0.0)
         show   = kwargs.get('show',   True)
         check  = kwargs.get('check',  True)
-- 
2.43.0


From 5095f487a84ac2856761da0cb9f318e91b60d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 11/64] fix: MINRES starts every solve with an empty residual
 history

---
 pykrylov/minres/minres.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 44289f8..59bc19a 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -129,6 +129,7 @@ class Minres(KrylovMethod):
         store_iterates = kwargs.get('store_iterates', False)
         window = kwargs.get('window', 5)
 
+        self.residHistory = []       # Residual norms.
         self.dir_errors_window = []  # Direct error estimates.
         self.iterates = []
 
-- 
2.43.0


From bcc190d73f4cb2b273ac702bf618b8ecfee40267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 12/64] fix: MINRES stops and reports convergence when, and
 only when, it has

b = 0 and b an eigenvector have exact solutions: the first was reported as a
failure and the second was iterated upon until x was NaN.  Whether beta2 is
negligible does not depend on the scale of b.  An excessive condition number
and an iteration limit of zero are not convergence.
---
 pykrylov/minres/minres.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 59bc19a..0311bcc 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -218,6 +218,7 @@ class Minres(KrylovMethod):
         # Main iteration loop.
         # --------------------------------------------------------------------
         if not done:                          # k = itn = 1 first time through
+            if itnlim <= 0: istop = 6
             while itn < itnlim:
                 itn = itn  +  1
 
@@ -257,7 +258,7 @@ class Minres(KrylovMethod):
                 tnorm2 = tnorm2 + alfa**2 + oldb**2 + beta**2
 
                 if itn==1:                    # Initialize a few things.
-                    if beta/beta1 <= 10*eps:  # beta2 = 0 or ~ 0.
+                    if beta <= 10*eps*abs(alfa):  # beta2 = 0 or ~ 0.
                         istop = -1            # Terminate later.
 
                     # tnorm2 = alfa**2  ??
@@ -354,7 +355,7 @@ class Minres(KrylovMethod):
                     if t1 <= 1: istop = 1
 
                     if itn >= itnlim: istop = 6
-                    if Acond >= 0.1/eps: istop = 4
+                    if Acond >= 0.1/eps: istop = 5
                     if epsx >= beta1: istop = 3
                     # if rnorm <= epsx: istop = 2
                     # if rnorm <= epsr: istop = 1
@@ -379,7 +380,7 @@ class Minres(KrylovMethod):
                     str3 = ' %8.1e %8.1e %8.1e' % (Anorm, Acond, gbar/Anorm)
                     print str1 + str2 + str3
 
-                if istop > 0: break
+                if istop != 0: break
 
                 if show and (itn % 10)==0: print ' '
 
@@ -393,7 +394,7 @@ class Minres(KrylovMethod):
             print last+' Arnorm  =  %12.4e' % Arnorm
             print last+self.msg[istop+1]
 
-        self.converged = istop in [1,2,3,4,10]
+        self.converged = istop in [-1,0,1,2,3,10]
         if istop == 10: self.status = 'direct error small'
         self.bestSolution = self.x = x
         self.istop = istop
-- 
2.43.0


From 7a04202458dd36c826b9813d08fce2a83a974ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 13/64] fix: MINRES keeps the norm of the right-hand side out
 of its estimate of ||A||

At the first iteration oldb is beta1 = ||b||, so that a large right-hand side
passed the relative convergence test with a large relative residual.
---
 pykrylov/minres/minres.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 0311bcc..d51a292 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -255,7 +255,8 @@ class Minres(KrylovMethod):
                     istop = 6
                     break
                 beta   = sqrt(beta)
-                tnorm2 = tnorm2 + alfa**2 + oldb**2 + beta**2
+                tnorm2 = tnorm2 + alfa**2 + beta**2
+                if itn >= 2: tnorm2 = tnorm2 + oldb**2
 
                 if itn==1:                    # Initialize a few things.
                     if beta <= 10*eps*abs(alfa):  # beta2 = 0 or ~ 0.
-- 
2.43.0


From a4dfdbe8411726c0e8fd36966bc4552187e8519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 14/64] fix: MINRES reports the initial residual norm when it
 does not iterate

---
 pykrylov/minres/minres.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index d51a292..5ceb564 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -203,6 +203,7 @@ class Minres(KrylovMethod):
         oldb   = 0.0;     beta   = beta1;   dbar   = 0.0;     epsln  = 0.0
         qrnorm = beta1;   phibar = beta1;   rhs1   = beta1;   Arnorm = 0.0
         rhs2   = 0.0;     tnorm2 = 0.0;     ynorm2 = 0.0
+        rnorm  = beta1
         cs     = -1.0;    sn     = 0.0
         w  = zeros(n, dtype=result_type)
         w2 = zeros(n, dtype=result_type)
-- 
2.43.0


From 00a0f95d36e0af1c808082f685fbd4a6a4620c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 15/64] fix: LSQR and CRAIG accept wantvar=True

---
 pykrylov/lls/craig.py | 2 +-
 pykrylov/lls/lsqr.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 22592ae..4c1ccd5 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -176,7 +176,7 @@ class CRAIGFramework(KrylovMethod):
         if itnlim == 0: itnlim = 3*n
 
         if wantvar:
-            var = zeros(n,1)
+            var = zeros(n)
         else:
             var = None
 
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 2cb1297..26282bb 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -152,7 +152,7 @@ class LSQRFramework(KrylovMethod):
         if itnlim == 0: itnlim = 3*n
 
         if wantvar:
-            var = zeros(n,1)
+            var = zeros(n)
         else:
             var = None
 
-- 
2.43.0


From a91f3185d671a1450c6e6267dbcd1bdb28fe0de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 16/64] fix: LSQR stops on its conlim argument

---
 pykrylov/lls/lsqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 26282bb..c591cb1 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -160,7 +160,7 @@ class LSQRFramework(KrylovMethod):
 
         itn = istop = 0
         ctol = 0.0
-        if conlim > 0.0: self.ctol = 1.0/conlim
+        if conlim > 0.0: ctol = 1.0/conlim
         Anorm = Acond = 0.
         z = xnorm = xxnorm = ddnorm = res2 = 0.
         cs2 = -1. ; sn2 = 0.
-- 
2.43.0


From e094a7ac99c0aed4323139698d2f0e541615a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 17/64] fix: LSQR counts an exact zero solution as optimal and
 survives NaN products

---
 pykrylov/lls/lsqr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index c591cb1..1519260 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -192,6 +192,7 @@ class LSQRFramework(KrylovMethod):
             u = Mu
 
         alpha = 0.
+        v = Nv = zeros(n)
         beta = sqrt(dot(u,Mu))       # norm(u)
         if beta > 0:
             u /= beta
@@ -207,7 +208,8 @@ class LSQRFramework(KrylovMethod):
         if alpha > 0:
             v /= alpha
             if N is not None: Nv /= alpha
-            w = v.copy()     # Should this be Nv ???
+
+        w = v.copy()     # Should this be Nv ???
 
         x_is_zero = False   # Is x=0 the solution to the least-squares prob?
         Arnorm = alpha * beta
@@ -438,7 +440,7 @@ class LSQRFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = istop in [0,1,2,4,5,8]
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
-- 
2.43.0


From 789bbf24b62a984972adb2280f4695d6a4cbb556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 18/64] fix: CRAIG solves a system whose right-hand side is
 zero

---
 pykrylov/lls/craig.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 4c1ccd5..2addb4a 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -216,6 +216,8 @@ class CRAIGFramework(KrylovMethod):
             u = Mu
 
         alpha = 0.
+        Arnorm = 0.
+        v = Nv = zeros(n)
         beta = sqrt(dot(u,Mu))       # norm(u)
         if beta > 0:
             u /= beta
@@ -503,7 +505,7 @@ class CRAIGFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = istop in [0,1,2,4,5,8]
         self.x = self.bestSolution = x
         self.r = r
         self.istop = istop
-- 
2.43.0


From 8476246eb23377a934720bb205fb41379be6cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 19/64] fix: CRAIG-MR prints nothing along the iterations

---
 pykrylov/lls/craigmr.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 12ecbed..fc22180 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -187,7 +187,6 @@ class CRAIGMRFramework(KrylovMethod):
             zeta     = c_hat * zeta_hat
             zeta_hat = s_hat * zeta_hat
             xNrgNorm2 += zeta * zeta
-            print itn, xNrgNorm2
             d = (u - beta_hat * d) / alpha_hat
             x += zeta * dbar
 
-- 
2.43.0


From c079e38037f32e168f7d4cf665f1062b1526c228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 20/64] fix: CRAIG-MR recognizes a right-hand side that is zero

---
 pykrylov/lls/craigmr.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index fc22180..6768e03 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -79,7 +79,7 @@ class CRAIGMRFramework(KrylovMethod):
             u = Mu
         beta = sqrt(dot(u,Mu))  # norm(u)
 
-        v = zeros(n)
+        v = Nv = zeros(n)
         alpha = 0
 
         if beta > 0:
@@ -124,8 +124,11 @@ class CRAIGMRFramework(KrylovMethod):
         if store_resids:
             self.norms.append(xNrgNorm2)
 
+        x_is_zero = (beta == 0)
+        if not x_is_zero and itnlim <= 0: istop = 7
+
         # Main iteration loop.
-        while itn < itnlim:
+        while itn < itnlim and not x_is_zero:
             itn = itn + 1
 
             # Perform the next step of the bidiagonalization to obtain the
@@ -233,7 +236,7 @@ class CRAIGMRFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = istop in [0,1,2,4,5,8]
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
-- 
2.43.0


From abf46291f08eed6a9c6bbdb04133d2433ff213ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 21/64] fix: LSMR survives an exact solution and NaN products

---
 pykrylov/lls/lsmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 05d1c59..27c5840 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -21,7 +21,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot
+from numpy import zeros, dot, inf
 from numpy.linalg import norm
 from math import sqrt
 
@@ -214,7 +214,7 @@ class LSMRFramework(KrylovMethod):
             u = Mu
         beta = sqrt(dot(u,Mu))  # norm(u)
 
-        v = zeros(n)
+        v = Nv = zeros(n)
         alpha = 0
 
         if beta > 0:
@@ -420,7 +420,7 @@ class LSMRFramework(KrylovMethod):
             # some of which will be small near a solution.
 
             test1   = normr /normb
-            test2   = normar/(normA*normr)
+            test2   = normar/(normA*normr) if normA*normr > 0 else inf
             test3   =      1/condA
             t1      =  test1/(1 + normA*normx/normb)
             rtol    = btol + atol*normA*normx/normb
-- 
2.43.0


From 73ded348dae835eb6ef629c2617c8c0fdb1c8786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 22/64] fix: LSMR records the outcome of every solve in its
 members

---
 pykrylov/lls/lsmr.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 27c5840..1c1e2f2 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -281,12 +281,13 @@ class LSMRFramework(KrylovMethod):
         # Reverse the order here from the original matlab code because
         # there was an error on return when arnorm==0
         normar = alpha * beta
-        if normar == 0:
-            if show:
-                print msg[0]
-            return x, istop, itn, normr, normar, normA, condA, normx
+        x_is_zero = (normar == 0)
+        if x_is_zero:
+            if show: print msg[0]
+        elif itnlim <= 0:
+            istop = 7
 
-        if show:
+        if show and not x_is_zero:
             print ' '
             print hdg1, hdg2
             test1  = 1;             test2  = alpha / beta
@@ -300,7 +301,7 @@ class LSMRFramework(KrylovMethod):
             self.normal_eqns_resids.append(normar)
 
         # Main iteration loop.
-        while itn < itnlim:
+        while itn < itnlim and not x_is_zero:
             itn = itn + 1
 
             # Perform the next step of the bidiagonalization to obtain the
@@ -488,7 +489,20 @@ class LSMRFramework(KrylovMethod):
             print str3, str4
             print 'Estimated energy norm of x: %7.1e' % sqrt(xNrgNorm2)
 
-        self.x = x
+        if istop == 0: self.status = 'solution is zero'
+        if istop in [1,2,4,5]: self.status = 'residual small'
+        if istop in [3,6]: self.status = 'ill-conditioned operator'
+        if istop == 7: self.status = 'max iterations'
+        if istop == 8: self.status = 'direct error small'
+        self.optimal = istop in [0,1,2,4,5,8]
+        self.x = self.bestSolution = x
+        self.istop = istop
+        self.itn = itn
+        self.r2norm = self.residNorm = normr
+        self.Anorm = normA
+        self.Acond = condA
+        self.Arnorm = normar
+        self.xnorm = normx
         return x, istop, itn, normr, normar, normA, condA, normx
 
 
-- 
2.43.0


From c1c189efc3e405ab8551025012a9f2d6a9816e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 23/64] fix: the least-squares solvers report the products that
 they made

---
 pykrylov/lls/craig.py   | 10 +++++-----
 pykrylov/lls/craigmr.py | 10 ++++++----
 pykrylov/lls/lsmr.py    |  9 ++++++---
 pykrylov/lls/lsqr.py    | 10 +++++-----
 4 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 2addb4a..661353c 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -182,7 +182,7 @@ class CRAIGFramework(KrylovMethod):
 
         dampsq = damp*damp;
 
-        itn = istop = 0
+        itn = istop = nMatvec = 0
         ctol = 0.0
         if conlim > 0.0: self.ctol = 1.0/conlim
         #Anorm = Acond = 0.
@@ -223,7 +223,7 @@ class CRAIGFramework(KrylovMethod):
             u /= beta
             if M is not None: Mu /= beta
 
-            Nv = A.T * u
+            Nv = A.T * u ; nMatvec += 1
             if N is not None:
                 v = N(Nv)
             else:
@@ -301,7 +301,7 @@ class CRAIGFramework(KrylovMethod):
             #               beta*M*u  =  A*v   -  alpha*M*u,
             #              alpha*N*v  =  A'*u  -   beta*N*v.
 
-            Mu = A*v - alpha*Mu
+            Mu = A*v - alpha*Mu ; nMatvec += 1
             if M is not None:
                 u = M(Mu)
             else:
@@ -320,7 +320,7 @@ class CRAIGFramework(KrylovMethod):
 
                 #Anorm = normof4(Anorm, alpha, beta, damp)
 
-                Nv = A.T*u - beta*Nv
+                Nv = A.T*u - beta*Nv ; nMatvec += 1
                 if N is not None:
                     v = N(Nv)
                 else:
@@ -510,7 +510,7 @@ class CRAIGFramework(KrylovMethod):
         self.r = r
         self.istop = istop
         self.itn = itn
-        self.nMatvec = 2*itn
+        self.nMatvec = nMatvec
         self.r1norm = sqrt(r1norm)
         self.r2norm = sqrt(r2norm)
         #self.residNorm = r2norm
diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 6768e03..0501892 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -70,6 +70,8 @@ class CRAIGMRFramework(KrylovMethod):
 
         if itnlim is None: itnlim = minDim
 
+        nMatvec = 0
+
         # Initialize the Golub-Kahan bidiagonalization process.
 
         Mu = b.copy()  # Don't want to change input vector.
@@ -86,7 +88,7 @@ class CRAIGMRFramework(KrylovMethod):
             u /= beta
             if M is not None: Mu /= beta
 
-            Nv = A.T * u
+            Nv = A.T * u ; nMatvec += 1
             if N is not None:
                 v = N(Nv)
             else:
@@ -136,7 +138,7 @@ class CRAIGMRFramework(KrylovMethod):
             #         beta*M*u  =  A*v   -  alpha*M*u,
             #        alpha*C*v  =  A'*u  -  beta*C*v.
 
-            Mu = A * v - alpha * Mu
+            Mu = A * v - alpha * Mu ; nMatvec += 1
             if M is not None:
                 u = M(Mu)
             else:
@@ -147,7 +149,7 @@ class CRAIGMRFramework(KrylovMethod):
                 u /= beta
                 if M is not None: Mu /= beta
 
-                Nv = A.T * u - beta * Nv
+                Nv = A.T * u - beta * Nv ; nMatvec += 1
                 if N is not None:
                     v = N(Nv)
                 else:
@@ -240,7 +242,7 @@ class CRAIGMRFramework(KrylovMethod):
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
-        self.nMatvec = 2*itn
+        self.nMatvec = nMatvec
         #self.r1norm = sqrt(r1norm)
         #self.r2norm = sqrt(r2norm)
         #self.residNorm = r2norm
diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 1c1e2f2..2ac6ec1 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -205,6 +205,8 @@ class LSMRFramework(KrylovMethod):
             print str3
             print str4
 
+        nMatvec = 0
+
         # Initialize the Golub-Kahan bidiagonalization process.
 
         Mu = b.copy()
@@ -221,7 +223,7 @@ class LSMRFramework(KrylovMethod):
             u /= beta
             if M is not None: Mu /= beta
 
-            Nv = A.T * u
+            Nv = A.T * u ; nMatvec += 1
             if N is not None:
                 v = N(Nv)
             else:
@@ -309,7 +311,7 @@ class LSMRFramework(KrylovMethod):
             #         beta*M*u  =  A*v   -  alpha*M*u,
             #        alpha*C*v  =  A'*u  -  beta*C*v.
 
-            Mu = A * v - alpha * Mu
+            Mu = A * v - alpha * Mu ; nMatvec += 1
             if M is not None:
                 u = M(Mu)
             else:
@@ -320,7 +322,7 @@ class LSMRFramework(KrylovMethod):
                 u /= beta
                 if M is not None: Mu /= beta
 
-                Nv = A.T * u - beta * Nv
+                Nv = A.T * u - beta * Nv ; nMatvec += 1
                 if N is not None:
                     v = N(Nv)
                 else:
@@ -498,6 +500,7 @@ class LSMRFramework(KrylovMethod):
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
+        self.nMatvec = nMatvec
         self.r2norm = self.residNorm = normr
         self.Anorm = normA
         self.Acond = condA
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 1519260..4cd7713 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -158,7 +158,7 @@ class LSQRFramework(KrylovMethod):
 
         dampsq = damp*damp;
 
-        itn = istop = 0
+        itn = istop = nMatvec = 0
         ctol = 0.0
         if conlim > 0.0: ctol = 1.0/conlim
         Anorm = Acond = 0.
@@ -198,7 +198,7 @@ class LSQRFramework(KrylovMethod):
             u /= beta
             if M is not None: Mu /= beta
 
-            Nv = A.T * u
+            Nv = A.T * u ; nMatvec += 1
             if N is not None:
                 v = N(Nv)
             else:
@@ -251,7 +251,7 @@ class LSQRFramework(KrylovMethod):
             #               beta*M*u  =  A*v   -  alpha*M*u,
             #              alpha*N*v  =  A'*u  -   beta*N*v.
 
-            Mu = A*v - alpha*Mu
+            Mu = A*v - alpha*Mu ; nMatvec += 1
             if M is not None:
                 u = M(Mu)
             else:
@@ -263,7 +263,7 @@ class LSQRFramework(KrylovMethod):
 
                 Anorm = normof4(Anorm, alpha, beta, damp)
 
-                Nv = A.T*u - beta*Nv
+                Nv = A.T*u - beta*Nv ; nMatvec += 1
                 if N is not None:
                     v = N(Nv)
                 else:
@@ -444,7 +444,7 @@ class LSQRFramework(KrylovMethod):
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
-        self.nMatvec = 2*itn
+        self.nMatvec = nMatvec
         self.r1norm = r1norm
         self.r2norm = r2norm
         self.residNorm = r2norm
-- 
2.43.0


From f3540e49794830f1f16ecfb928acdf7ad61b3a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 24/64] fix: check_symmetric and check_positive_definite leave
 Numpy's global generator alone

---
 pykrylov/tools/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index f37d678..1ef8750 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -71,9 +71,9 @@ def check_symmetric(op, repeats=10):
     if m != n:
         return False
     eps = machine_epsilon()
-    np.random.seed(1)
+    rng = np.random.RandomState(1)
     for _ in xrange(repeats):
-        x = np.random.random(n)
+        x = rng.random_sample(n)
         w = op * x
         r = op * w
         s = np.dot(w, w)
@@ -95,8 +95,9 @@ def check_positive_definite(op, repeats=10, semi=False):
     m, n = op.shape
     if m != n:
         return False
+    rng = np.random.RandomState(1)
     for _ in xrange(repeats):
-        v = np.random.random(n)
+        v = rng.random_sample(n)
         w = op * v
         vw = np.dot(v, w)
         eps = machine_epsilon()
-- 
2.43.0


From 35ea05b23f3b2ef4e5450ec9896428248147778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 25/64] fix: DiagonalOperator multiplies by its own copy of the
 diagonal

---
 pykrylov/linop/linop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index a7d8155..6f9de0a 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -492,7 +492,7 @@ class DiagonalOperator(LinearOperator):
         diag = np.asarray(diag)
         if diag.ndim != 1:
             raise ValueError('Input must be 1-d array')
-        self.__diag = diag.copy()
+        self.__diag = diag = diag.copy()
 
         super(DiagonalOperator, self).__init__(diag.shape[0], diag.shape[0],
                                                symmetric=True,
-- 
2.43.0


From c7c0ae51d1b3e8b7ca613d71801b70da783c08bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 26/64] fix: CoordLinearOperator infers dimensions that hold
 its last row and column

---
 pykrylov/linop/linop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 6f9de0a..ccc1eab 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -643,8 +643,8 @@ def CoordLinearOperator(vals, rows, cols,
     `rows` and `cols`. If `symmetric` is `True`, then `vals`, `rows` and
     `cols` are assumed to only represent one triangle of the operator.
     """
-    if nargin == 0: nargin = cols.max()
-    if nargout == 0: nargout = rows.max()
+    if nargin == 0: nargin = cols.max() + 1
+    if nargout == 0: nargout = rows.max() + 1
 
     def matvec(x):
       if x.shape != (nargin,):
-- 
2.43.0


From e702d9963ec438ded3bc943d6a0241a9934e9d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 27/64] fix: dividing a linear operator by an integer does not
 truncate

---
 pykrylov/linop/linop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index ccc1eab..0e9bde4 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -431,7 +431,7 @@ class LinearOperator(BaseLinearOperator):
     def __div__(self, other):
         if not np.isscalar(other):
             raise ValueError('Cannot divide')
-        return self * (1 / other)
+        return self * (1. / other)
 
     def __truediv__(self, other):
         if not np.isscalar(other):
-- 
2.43.0


From e859cbfa385f56326a993275a4626050e9969095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 28/64] fix: a complex symmetric array is not assumed to be
 Hermitian

---
 pykrylov/linop/linop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 0e9bde4..1c082f4 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -723,7 +723,8 @@ def PysparseLinearOperator(A):
 def linop_from_ndarray(A, symmetric=False, **kwargs):
     "Return a linear operator from a Numpy `ndarray`."
 
-    hermitian = kwargs.get('hermitian', symmetric)
+    hermitian = kwargs.get('hermitian',
+                           symmetric and A.dtype not in complex_types)
 
     if A.dtype in complex_types:
         return LinearOperator(A.shape[1], A.shape[0],
-- 
2.43.0


From 4648c3410ac02c62248563e40fc09ccd7e1ea0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 29/64] fix: the adjoint of an inferred adjoint is the operator
 itself

---
 pykrylov/linop/linop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 1c082f4..b92bae5 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -139,11 +139,13 @@ class LinearOperator(BaseLinearOperator):
                     if self.H is None and __conj is not None:
                         self.logger.debug('Inferring .H')
                         self.__H = __conj.T
+                        self.__H.__H = self
                 if self.H is not None:
                     self.__H.__T = __conj
                     if self.T is None and __conj is not None:
                         self.logger.debug('Inferring .T')
                         self.__T = __conj.H
+                        self.__T.__T = self
 
     def __set_transpose(self, matvec, transpose_of=None, matvec_transp=None, **kwargs):
 
-- 
2.43.0


From e60366d24c5fd48f75f38302c444ee088addd500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 30/64] fix: block operators keep their own lists of blocks

---
 pykrylov/linop/blkop.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 41511ae..3154867 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -1,6 +1,5 @@
 from pykrylov.linop import BaseLinearOperator, LinearOperator
 from pykrylov.linop import ShapeError, null_log
-from copy import copy
 import numpy as np
 import itertools
 
@@ -33,7 +32,7 @@ class BlockLinearOperator(LinearOperator):
                 if hermitian and not block_row[0].hermitian:
                     raise ValueError('Blocks on diagonal must be hermitian.')
 
-            self._blocks = copy(blocks)
+            self._blocks = [list(row) for row in blocks]
             for i in range(1, nrow):
                 for j in range(i - 1, -1, -1):
                     if symmetric:
@@ -42,7 +41,7 @@ class BlockLinearOperator(LinearOperator):
                         self._blocks[i].insert(0, self._blocks[j][i].H)
 
         else:
-            self._blocks = copy(blocks)
+            self._blocks = [list(row) for row in blocks]
 
         log = kwargs.get('logger', null_log)
         log.debug('Building new BlockLinearOperator')
@@ -98,7 +97,7 @@ class BlockLinearOperator(LinearOperator):
 
             return y
 
-        flat_blocks = list(itertools.chain(*blocks))
+        flat_blocks = list(itertools.chain(*self._blocks))
         blk_dtypes = [blk.dtype for blk in flat_blocks]
         op_dtype = np.result_type(*blk_dtypes)
 
@@ -164,7 +163,7 @@ class BlockDiagonalLinearOperator(LinearOperator):
         hermitian = reduce(lambda x, y: x and y,
                            [blk.hermitian for blk in blocks])
 
-        self._blocks = blocks
+        self._blocks = list(blocks)
 
         log = kwargs.get('logger', null_log)
         log.debug('Building new BlockDiagonalLinearOperator')
-- 
2.43.0


From 61ec51d968a8c046debd4f9f03c6f94696ac262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 31/64] fix: the transpose of a block diagonal operator may
 have rectangular blocks

---
 pykrylov/linop/blkop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 3154867..956d991 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -183,9 +183,9 @@ class BlockDiagonalLinearOperator(LinearOperator):
 
         def blk_matvec(x, blks):
             nx = len(x)
-            nargins = [blk.shape[-1] for blk in blocks]
+            nargins = [blk.shape[-1] for blk in blks]
             nargin = sum(nargins)
-            nargouts = [blk.shape[0] for blk in blocks]
+            nargouts = [blk.shape[0] for blk in blks]
             nargout = sum(nargouts)
             self.logger.debug('Multiplying with a vector of size %d' % nx)
             self.logger.debug('nargin=%d, nargout=%d' % (nargin, nargout))
-- 
2.43.0


From 1795eb7ee7550a643a12f429f311138d0d138b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 32/64] fix: editing a symmetric block operator updates its
 adjoint

---
 pykrylov/linop/blkop.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 956d991..eeb3905 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -138,9 +138,8 @@ class BlockLinearOperator(LinearOperator):
                         self._blocks[i][j] = self._blocks[j][i].T
                     else:
                         self._blocks[i][j] = self._blocks[j][i].H
-        else:
-            self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
-            self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
+        self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
+        self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
 
     def __contains__(self, op):
         return op in list(itertools.chain(*self.blocks))
-- 
2.43.0


From 81916f44a1ee678eb2ec78645fce21ddec83d6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 33/64] fix: products with an inverse L-BFGS operator share no
 scratch memory

---
 pykrylov/linop/lbfgs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index f570bf6..78aff44 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -54,7 +54,6 @@ class InverseLBFGSOperator(LinearOperator):
         self.s = np.empty((self.n, self.npairs), 'd')
         self.y = np.empty((self.n, self.npairs), 'd')
 
-        self.alpha = np.empty(self.npairs, 'd')    # multipliers
         self.ys = [None] * self.npairs             # dot products si'yi
         self.gamma = 1.0
 
@@ -105,7 +104,7 @@ class InverseLBFGSOperator(LinearOperator):
         s = self.s
         y = self.y
         ys = self.ys
-        alpha = self.alpha
+        alpha = np.empty(self.npairs, 'd')    # multipliers
         for i in range(self.npairs):
             k = (self.insert - 1 - i) % self.npairs
             if ys[k] is not None:
-- 
2.43.0


From a8f64968aa2233efc98391b99b6aa0164baea988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 34/64] fix: an interrupted store leaves no half-written pair
 in an L-BFGS operator

---
 pykrylov/linop/lbfgs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index 78aff44..b76d0df 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -79,11 +79,11 @@ class InverseLBFGSOperator(LinearOperator):
             return
 
         insert = self.insert
-        self.s[:, insert] = new_s.copy()
-        self.y[:, insert] = new_y.copy()
-        self.ys[insert] = ys
-        self.insert += 1
-        self.insert = self.insert % self.npairs
+        new_s, new_y = new_s.copy(), new_y.copy()
+        self.ys[insert] = None    # The slot is void until both halves are in.
+        self.s[:, insert] = new_s
+        self.y[:, insert] = new_y
+        self.ys[insert], self.insert = ys, (insert + 1) % self.npairs
 
     def restart(self):
         """Restart the approximation by clearing all data on past updates."""
-- 
2.43.0


From 8aebfa64ed257ba50336c999db8ed86795c2ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 35/64] fix: the forward L-BFGS operator honours scaling

---
 pykrylov/linop/lbfgs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index b76d0df..bbc333a 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -153,6 +153,12 @@ class LBFGSOperator(InverseLBFGSOperator):
         b = np.zeros((self.n, self.npairs))
         a = np.zeros((self.n, self.npairs))
 
+        if self.scaling:
+            last = (self.insert - 1) % self.npairs
+            if ys[last] is not None:
+                self.gamma = ys[last] / np.dot(y[:, last], y[:, last])
+                q /= self.gamma
+
         # B = Σ aa' - bb'.
         for i in range(self.npairs):
             k = (self.insert + i) % self.npairs
@@ -160,7 +166,7 @@ class LBFGSOperator(InverseLBFGSOperator):
                 b[:, k] = y[:, k] / ys[k]**.5
                 bv = np.dot(b[:, k], v[:])
                 q += bv * b[:, k]
-                a[:, k] = s[:, k].copy()
+                a[:, k] = s[:, k] / self.gamma
                 for j in range(i):
                     l = (self.insert + j) % self.npairs
                     if ys[l] is not None:
-- 
2.43.0


From c388893a9541511698a061ce53303f8ad9fd3ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 36/64] fix: MINRES and SYMMLQ diagnose an indefinite
 preconditioner as such

A negative r'Pr met along the iterations was reported as the iteration limit
(MINRES) or as an unsymmetric operator (SYMMLQ).
---
 pykrylov/minres/minres.py | 2 +-
 pykrylov/symmlq/symmlq.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 5ceb564..b606377 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -253,7 +253,7 @@ class Minres(KrylovMethod):
                 oldb   = beta
                 beta   = dot(r2,y)
                 if beta < 0:
-                    istop = 6
+                    istop = 9
                     break
                 beta   = sqrt(beta)
                 tnorm2 = tnorm2 + alfa**2 + beta**2
diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index afef043..ed7f28e 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -315,7 +315,7 @@ class Symmlq(KrylovMethod) :
                 beta = np.dot(r2, y)
 
                 if beta < 0:
-                    istop = 6
+                    istop = 8
                     break
 
                 beta  = np.sqrt(beta)
-- 
2.43.0


From 212eedf1686dd318f5df250572cf0ea2c8642a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 37/64] fix: CRAIG tests the residual of the system, not the
 energy norm of its iterates

The stopping test compared a quantity that grows along the iterations, the
energy norm of the dual iterate, with btol*||b||. For operators of large norm
it is small from the first iteration on, and CRAIG claimed a small residual
for an iterate that does not have one.
---
 pykrylov/lls/craig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 661353c..3530f02 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -424,7 +424,7 @@ class CRAIGFramework(KrylovMethod):
             # Now use these norms to estimate certain other quantities,
             # some of which will be small near a solution.
 
-            test1 = sqrt(rnorm) / bnorm
+            test1 = abs(sqd_resid) / bnorm
             #if Anorm == 0. or rnorm == 0.:
             #    test2 = inf
             #else:
-- 
2.43.0


From 0febd2e9421c56089a5bb201b00cfe85c0d7d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 38/64] fix: SYMMLQ recognizes an eigenvector relative to the
 scale of the operator

The absolute test took any vector for an eigenvector of an operator of tiny
norm, and claimed convergence after one step.
---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index ed7f28e..82e12d7 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -197,7 +197,7 @@ class Symmlq(KrylovMethod) :
             #  Cause termination (later) if beta is essentially zero.
 
             beta = np.sqrt(beta)
-            if beta <= eps:
+            if beta <= 10*eps*np.abs(alfa):
                 istop = -1
 
             #  See if the local reorthogonalization achieved anything.
-- 
2.43.0


From debc1fb5e6b3514774197d5ac871ae972f719212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:03 +0000
Subject: [PATCH 39/64] fix: MINRES guards against a zero pivot relative to the
 scale of the operator

The absolute guard replaced every pivot of an operator of tiny norm, and MINRES
claimed convergence at a point that is not a solution.
---
 pykrylov/minres/minres.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index b606377..c136421 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -286,7 +286,8 @@ class Minres(KrylovMethod):
                 # Compute the next plane rotation Qk
 
                 gamma  = self.normof2(gbar, beta)       # gammak
-                gamma  = max(gamma, eps)
+                gamma  = max(gamma, eps*sqrt(tnorm2))
+                if gamma == 0: gamma = eps    # The operator is zero.
                 cs     = gbar / gamma             # ck
                 sn     = beta / gamma             # sk
                 phi    = cs * phibar              # phik
-- 
2.43.0


From 0f12d905f14b4ef3aea8d5bcdc6b0d766d936a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:00 +0000
Subject: [PATCH 40/64] fix: CG.solve leaves no result of a previous solve
 behind when it refuses the operator

With check_symmetric set and an unsymmetric operator, the solution and counts
of the previous solve stayed in place as those of the current one.
---
 pykrylov/cg/cg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index efbbebd..5ffbae7 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -64,6 +64,10 @@ class CG( KrylovMethod ):
 
         # Forget the outcome of any previous solve.
         self.converged = False
+        self.definite = definite
+        self.nMatvec = nMatvec
+        self.bestSolution = self.x = None
+        self.residNorm = self.residNorm0 = None
         self.infiniteDescent = None
         self.resids = []
         self.iterates = []
-- 
2.43.0


From a12d2e20cefb5738215bf970f217408fd7dba697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:32 +0000
Subject: [PATCH 41/64] fix: L-BFGS operators reject a pair whose curvature is
 NaN

Such a pair was accepted, as NaN is not below the threshold either, and every
later product was NaN.
---
 pykrylov/linop/lbfgs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index bbc333a..b1b08d9 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -74,7 +74,7 @@ class InverseLBFGSOperator(LinearOperator):
         case the storage limit has been reached.
         """
         ys = np.dot(new_s, new_y)
-        if ys <= self.accept_threshold:
+        if not ys > self.accept_threshold:
             self.logger.debug('Rejecting (s,y) pair')
             return
 
-- 
2.43.0


From abf7bf43225af7de4315f0ff07a2f88604bdf790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 42/64] fix: a residual norm that overflowed is never
 convergence

---
 pykrylov/bicgstab/bicgstab.py | 2 +-
 pykrylov/cg/cg.py             | 2 +-
 pykrylov/cgs/cgs.py           | 2 +-
 pykrylov/tfqmr/tfqmr.py       | 3 ++-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 6127ea6..60c1de2 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -146,7 +146,7 @@ class BiCGSTAB( KrylovMethod ):
                 continue
 
 
-        self.converged = residNorm <= threshold
+        self.converged = bool(residNorm <= threshold and residNorm < np.inf)
         self.nMatvec = nMatvec
         self.bestSolution = self.x = x
         self.residNorm = residNorm
diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 5ffbae7..c693256 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -170,7 +170,7 @@ class CG( KrylovMethod ):
             self.logger.info(info)
 
 
-        self.converged = residNorm <= threshold
+        self.converged = bool(residNorm <= threshold and residNorm < np.inf)
         self.definite = definite
         self.nMatvec = nMatvec
         self.bestSolution = self.x = x
diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index c4443c1..baab70d 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -119,7 +119,7 @@ class CGS( KrylovMethod ):
             self.logger.info('%5d  %8.2e\n' % (nMatvec, residNorm))
 
 
-        self.converged = residNorm <= threshold
+        self.converged = bool(residNorm <= threshold and residNorm < np.inf)
         self.nMatvec = nMatvec
         self.bestSolution = self.x = x
         self.residNorm = residNorm
diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index c316c8b..0d21c36 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -155,7 +155,8 @@ class TFQMR( KrylovMethod ):
             self.logger.info('%5d  %8.2e' % (nMatvec, residNorm))
 
 
-        self.converged = residNorm * np.sqrt(m+1) <= threshold
+        self.converged = bool(residNorm * np.sqrt(m+1) <= threshold
+                              and residNorm < np.inf)
         self.nMatvec = nMatvec
         self.bestSolution = self.x = x
         self.residNorm = residNorm
-- 
2.43.0


From 2ad23c81d9adb5c7e0c0e542a433bf8dbfbe60cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:00 +0000
Subject: [PATCH 43/64] fix: SYMMLQ's diagnosis of its arguments is not
 overwritten

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 82e12d7..2ce40c8 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -197,7 +197,7 @@ class Symmlq(KrylovMethod) :
             #  Cause termination (later) if beta is essentially zero.
 
             beta = np.sqrt(beta)
-            if beta <= 10*eps*np.abs(alfa):
+            if not done and beta <= 10*eps*np.abs(alfa):
                 istop = -1
 
             #  See if the local reorthogonalization achieved anything.
-- 
2.43.0


From d2e659ab189b99472b6788ba173702388b641374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 44/64] fix: SYMMLQ and CRAIG do not claim a solution that is
 not finite

---
 pykrylov/lls/craig.py     | 5 +++--
 pykrylov/symmlq/symmlq.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 3530f02..6cfc10d 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -425,6 +425,7 @@ class CRAIGFramework(KrylovMethod):
             # some of which will be small near a solution.
 
             test1 = abs(sqd_resid) / bnorm
+            finite = xnorm < inf and rnorm < inf   # False if either is NaN.
             #if Anorm == 0. or rnorm == 0.:
             #    test2 = inf
             #else:
@@ -450,13 +451,13 @@ class CRAIGFramework(KrylovMethod):
             if itn >= itnlim:  istop = 7
             #if 1 + test3 <= 1: istop = 6
             #if 1 + test2 <= 1: istop = 5
-            if 1 + t1    <= 1: istop = 4
+            if 1 + t1    <= 1 and finite: istop = 4
 
             # Allow for tolerances set by the user.
 
             #if test3 <= ctol: istop = 3
             #if test2 <= atol: istop = 2
-            if test1 <= rtol: istop = 1
+            if test1 <= rtol and finite: istop = 1
 
             # See if it is time to print something.
 
diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 2ce40c8..59f5db9 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -399,7 +399,7 @@ class Symmlq(KrylovMethod) :
         self.logger.info(last + msg[istop])
 
         self.istop = istop ; self.itn = itn
-        self.converged = istop in [-1,0,1,2]
+        self.converged = bool(istop in [-1,0,1,2] and xnorm < np.inf)
         self.nMatvec = nMatvec
         self.bestSolution = x ; self.solutionNorm = xnorm
         self.x = self.bestSolution ; self.xNorm = xnorm
-- 
2.43.0


From 3237c330bb34c21059c7731e0cc530c34ee1ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:43 +0000
Subject: [PATCH 45/64] fix: MINRES, SYMMLQ and CRAIG make no claim on measures
 that are not finite

---
 pykrylov/lls/craig.py     |  2 +-
 pykrylov/minres/minres.py | 10 +++++-----
 pykrylov/symmlq/symmlq.py |  6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 6cfc10d..992e946 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -377,7 +377,7 @@ class CRAIGFramework(KrylovMethod):
                 trncDirErr = norm(dErr)
                 rNrgNorm = sqrt(rNrgNorm2)
                 self.dir_errors_d_window.append(trncDirErr / rNrgNorm)
-                if trncDirErr < etol * rNrgNorm:
+                if trncDirErr < etol * rNrgNorm < inf and xnorm + eta*eta < inf:
                     istop = 8
 
             # Use a plane rotation on the right to eliminate the
diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index c136421..6d00611 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -354,16 +354,16 @@ class Minres(KrylovMethod):
                 if istop==0:
                     t1 = 1 + test1      # These tests work if rtol < eps
                     t2 = 1 + test2
-                    if t2 <= 1: istop = 2
-                    if t1 <= 1: istop = 1
+                    if t2 <= 1 and Anorm < np.inf: istop = 2
+                    if t1 <= 1 and epsx < np.inf: istop = 1
 
                     if itn >= itnlim: istop = 6
                     if Acond >= 0.1/eps: istop = 5
-                    if epsx >= beta1: istop = 3
+                    if beta1 <= epsx < np.inf: istop = 3
                     # if rnorm <= epsx: istop = 2
                     # if rnorm <= epsr: istop = 1
-                    if test2 <= rtol: istop = 2
-                    if test1 <= rtol: istop = 1
+                    if test2 <= rtol and Anorm < np.inf: istop = 2
+                    if test1 <= rtol and epsx < np.inf: istop = 1
 
                 # See if it is time to print something.
 
diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 59f5db9..24986ea 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -275,9 +275,9 @@ class Symmlq(KrylovMethod) :
                 if istop == 0:
                     if nMatvec+1 >= matvec_max : istop = 5
                     if acond   >= 0.1/eps    : istop = 4
-                    if epsx    >= beta1      : istop = 3
-                    if cgnorm  <= epsx       : istop = 2
-                    if cgnorm  <= epsr       : istop = 1
+                    if beta1  <= epsx < np.inf : istop = 3
+                    if cgnorm <= epsx < np.inf : istop = 2
+                    if cgnorm <= epsr < np.inf : istop = 1
 
                 prnt = False
                 if n       <= 40              :   prnt = True
-- 
2.43.0


From 1cb7415ee3db1f1151c11ab3579e85069f5cbf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:02 +0000
Subject: [PATCH 46/64] fix: MINRES keeps quiet with show off when the
 preconditioner is not symmetric

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 6d00611..e13c5ad 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -194,8 +194,8 @@ class Minres(KrylovMethod):
         if check and (precon is not None):
             if not check_symmetric(precon):
                 istop = 8
-                show = True
                 done = True
+                self.show = True
 
         # -------------------------------------------------------------------
         # Initialize other quantities.
-- 
2.43.0


From bab70d12c05cf9420ea006e521cacd8dc55f88f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:32 +0000
Subject: [PATCH 47/64] fix: a block operator whose blocks were replaced by
 ones of other shapes is refused

---
 pykrylov/linop/blkop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index eeb3905..cca4df7 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -75,6 +75,10 @@ class BlockLinearOperator(LinearOperator):
             self.logger.debug('nargin=%d, nargout=%d' % (nargin, nargout))
             if nx != nargin:
                 raise ShapeError('Multiplying with vector of wrong shape.')
+            # Blocks may have been replaced since the operator was built.
+            for ins, outs in zip(nargins, nargouts):
+                if ins != nargins[0] or min(outs) != max(outs):
+                    raise ShapeError('Inconsistent block shapes')
 
             result_type = np.result_type(self.dtype, x.dtype)
             y = np.zeros(nargout, dtype=result_type)
-- 
2.43.0


From 0fb25b03a1d89c78bc566d7243afa09a1a8bbc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:32 +0000
Subject: [PATCH 48/64] fix: an edit of a block operator is made as a whole or
 refused

---
 pykrylov/linop/blkop.py | 43 +++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index cca4df7..e1f5e34 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -134,16 +134,26 @@ class BlockLinearOperator(LinearOperator):
     def __setitem__(self, indices, val):
         blks_mat = np.matrix(self._blocks, dtype=object)
         blks_mat.__setitem__(indices, val)
-        self._blocks = blks_mat.tolist()
+        blocks = blks_mat.tolist()
+        for blk in itertools.chain(*blocks):
+            if not isinstance(blk, BaseLinearOperator):
+                msg = 'Block operators can only contain linear operators'
+                raise ValueError(msg)
         if self.symmetric or self.hermitian:
-            for i in range(1, len(self._blocks)):
+            for i in range(len(blocks)):
+                if self.symmetric and not blocks[i][i].symmetric:
+                    raise ValueError('Blocks on diagonal must be symmetric.')
+                if self.hermitian and not blocks[i][i].hermitian:
+                    raise ValueError('Blocks on diagonal must be hermitian.')
                 for j in range(i):
                     if self.symmetric:
-                        self._blocks[i][j] = self._blocks[j][i].T
+                        blocks[i][j] = blocks[j][i].T
                     else:
-                        self._blocks[i][j] = self._blocks[j][i].H
-        self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
-        self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
+                        blocks[i][j] = blocks[j][i].H
+        blocksT = map(lambda *row: [blk.T for blk in row], *blocks)
+        blocksH = map(lambda *row: [blk.H for blk in row], *blocks)
+        # The edit is made as a whole or not at all.
+        self._blocks, self._blocksT, self._blocksH = blocks, blocksT, blocksH
 
     def __contains__(self, op):
         return op in list(itertools.chain(*self.blocks))
@@ -245,17 +255,16 @@ class BlockDiagonalLinearOperator(LinearOperator):
         return blks
 
     def __setitem__(self, idx, ops):
-        if not isinstance(ops, BaseLinearOperator):
-            if isinstance(ops, list) or isinstance(ops, tuple):
-                for op in ops:
-                    if not isinstance(op, BaseLinearOperator):
-                        msg = 'Block operators can only contain linear operators'
-                        raise ValueError(msg)
-        self._blocks.__setitem__(idx, ops)
-        if not self.symmetric:
-            self._blocksT = [blk.T for blk in self._blocks]
-        if not self.hermitian:
-            self._blocksH = [blk.H for blk in self._blocks]
+        blocks = list(self._blocks)
+        blocks.__setitem__(idx, ops)
+        for blk in blocks:
+            if not isinstance(blk, BaseLinearOperator):
+                msg = 'Block operators can only contain linear operators'
+                raise ValueError(msg)
+        blocksT = [blk.T for blk in blocks]
+        blocksH = [blk.H for blk in blocks]
+        # The edit is made as a whole or not at all.
+        self._blocks, self._blocksT, self._blocksH = blocks, blocksT, blocksH
 
 
 class BlockPreconditioner(BlockLinearOperator):
-- 
2.43.0


From a8a1e9136ff6709c02158b3ba22451ee13662868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:36 +0000
Subject: [PATCH 49/64] fix: block rows that do not match are refused, ragged
 ones too

---
 pykrylov/linop/blkop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index e1f5e34..c728675 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -48,9 +48,9 @@ class BlockLinearOperator(LinearOperator):
 
         nargins = [[blk.shape[-1] for blk in row] for row in self._blocks]
         log.debug('nargins = ' + repr(nargins))
-        nargins_by_row = [nargin[0] for nargin in nargins]
-        if min(nargins_by_row) != max(nargins_by_row):
-            raise ShapeError('Inconsistent block shapes')
+        for row in nargins:
+            if row != nargins[0]:
+                raise ShapeError('Inconsistent block shapes')
 
         nargouts = [[blk.shape[0] for blk in row] for row in self._blocks]
         log.debug('nargouts = ' + repr(nargouts))
-- 
2.43.0


From 17bb11050b16c04e8ba1bc146c9a4d663b72bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 50/64] fix: the adjoint of the transpose of a Hermitian
 operator has a transpose

---
 pykrylov/linop/linop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index b92bae5..1ecad32 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -142,6 +142,8 @@ class LinearOperator(BaseLinearOperator):
                         self.__H.__H = self
                 if self.H is not None:
                     self.__H.__T = __conj
+                    if self.hermitian:
+                        __conj.__H = __conj
                     if self.T is None and __conj is not None:
                         self.logger.debug('Inferring .T')
                         self.__T = __conj.H
-- 
2.43.0


From 294fb07d4ad4c033967464c0de8808852b511710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 51/64] fix: MINRES measures the norm of its current iterate

---
 pykrylov/minres/minres.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index e13c5ad..908486e 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -201,8 +201,7 @@ class Minres(KrylovMethod):
         # Initialize other quantities.
         # ------------------------------------------------------------------
         oldb   = 0.0;     beta   = beta1;   dbar   = 0.0;     epsln  = 0.0
-        qrnorm = beta1;   phibar = beta1;   rhs1   = beta1;   Arnorm = 0.0
-        rhs2   = 0.0;     tnorm2 = 0.0;     ynorm2 = 0.0
+        qrnorm = beta1;   phibar = beta1;   Arnorm = 0.0;     tnorm2 = 0.0
         rnorm  = beta1
         cs     = -1.0;    sn     = 0.0
         w  = zeros(n, dtype=result_type)
@@ -318,15 +317,11 @@ class Minres(KrylovMethod):
 
                 gmax   = max(gmax, gamma)
                 gmin   = min(gmin, gamma)
-                z      = rhs1 / gamma
-                ynorm2 = z**2  +  ynorm2
-                rhs1   = rhs2 -  delta*z
-                rhs2   =      -  epsln*z
 
                 # Estimate various norms and test for convergence.
 
                 Anorm  = sqrt(tnorm2)
-                ynorm  = sqrt(ynorm2)
+                ynorm  = norm(x)
                 epsa   = Anorm * eps
                 epsx   = Anorm * ynorm * eps
                 epsr   = Anorm * ynorm * rtol
-- 
2.43.0


From 1c0e9bf7d6948eb79e839697dfee840d6f0f4343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 52/64] fix: LSQR's r1norm is the residual norm of its current
 iterate

---
 pykrylov/lls/lsqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 4cd7713..364bd1b 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -352,7 +352,7 @@ class LSQRFramework(KrylovMethod):
             #    r1norm = sqrt(r2norm^2 - damp^2*||x||^2).
             # Although there is cancellation, it might be accurate enough.
 
-            r1sq    =   rnorm**2  -  dampsq * xxnorm
+            r1sq    =   rnorm**2  -  dampsq * xnorm**2
             r1norm  =   sqrt(abs(r1sq))
             if r1sq < 0: r1norm = - r1norm
             r2norm  =   rnorm
-- 
2.43.0


From 04173d783b471e20fdfa0fc5686d78697d125aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:21 +0000
Subject: [PATCH 53/64] fix: LSMR's estimate of the condition number does not
 depend on the scale of A

---
 pykrylov/lls/lsmr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 2ac6ec1..30f8c10 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -408,8 +408,9 @@ class LSMRFramework(KrylovMethod):
             normA2        = normA2 + alpha*alpha
 
             # Estimate cond(A).
-            maxrbar       = max(maxrbar,rhobarold)
             if itn>1:
+              # The first rhobarold is a placeholder that knows no scale.
+              maxrbar     = max(maxrbar,rhobarold)
               minrbar     = min(minrbar,rhobarold)
             condA         = max(maxrbar,rhotemp)/min(minrbar,rhotemp)
 
-- 
2.43.0


From 8efbeaa6360a85ad6a4b7117ec7fa3916a59b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:00 +0000
Subject: [PATCH 54/64] fix: CRAIG's energy norms include the first step

---
 pykrylov/lls/craig.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 992e946..9f5b984 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -266,6 +266,8 @@ class CRAIGFramework(KrylovMethod):
         #rnorm  = zeta * zeta    # = ||b - Ax||^2_M + \|x\|^2_N.
         r1norm = xi * xi        # = ||b - Ax||^2_M.
         r2norm = rnorm
+        rNrgNorm2 = tau * tau   # The first iterates are not zero.
+        xNrgNorm2 = zeta * zeta
 
         head1  = '   Itn      x(1)       r1norm     r2norm '
         head2  = ' Compatible   LS      Norm A   Cond A'
-- 
2.43.0


From feb0e2061f909ee1435a8a96003626b52ba68eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:00 +0000
Subject: [PATCH 55/64] fix: LSQR's estimate of |A| includes a last step that
 ends exactly

---
 pykrylov/lls/lsqr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 364bd1b..daf3a40 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -257,12 +257,11 @@ class LSQRFramework(KrylovMethod):
             else:
                 u = Mu
             beta = sqrt(dot(u,Mu))   # norm(u)
+            Anorm = normof4(Anorm, alpha, beta, damp)
             if beta > 0:
                 u /= beta
                 if M is not None: Mu /= beta
 
-                Anorm = normof4(Anorm, alpha, beta, damp)
-
                 Nv = A.T*u - beta*Nv ; nMatvec += 1
                 if N is not None:
                     v = N(Nv)
-- 
2.43.0


From 6cda10aff6e7076da386521693c057a16a9401a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 56/64] fix: SYMMLQ's stored iterates include the step along b

---
 pykrylov/symmlq/symmlq.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 24986ea..f61a3e4 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -160,6 +160,7 @@ class Symmlq(KrylovMethod) :
             beta1 = np.sqrt(beta1)
             s     = 1.0 / beta1
             v     = s * y
+            v1    = v       # The direction of the step along b.
 
             y = self.op * v ; nMatvec += 1
             if check:
@@ -339,12 +340,13 @@ class Symmlq(KrylovMethod) :
                 x += s*w + t*v
                 w *= sn ; w -= cs*v
 
-                if store_iterates:
-                    self.iterates.append(x.copy())
-
                 # Accumulate the step along the direction b, and go round again.
 
                 bstep  = snprod * cs * z  +  bstep
+
+                if store_iterates:
+                    self.iterates.append(x + bstep * v1)
+
                 snprod = snprod * sn
                 gmax   = max(gmax, gamma)
                 gmin   = min(gmin, gamma)
-- 
2.43.0


From 47c96c508cf8b8868a6ef4c5f73c0f527a9257ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 57/64] fix: SYMMLQ's estimate of the condition number does not
 depend on the scale of A

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index f61a3e4..5705875 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -215,7 +215,7 @@ class Symmlq(KrylovMethod) :
             #  Initialize other quantities.
             cgnorm = beta1 ; rhs2   = 0 ; tnorm  = alfa**2 + beta**2
             gbar   = alfa  ; bstep  = 0 ; ynorm2 = 0
-            dbar   = beta  ; snprod = 1 ; gmax   = np.abs(alfa) + eps
+            dbar   = beta  ; snprod = 1 ; gmax   = np.abs(alfa) or eps
             rhs1   = beta1 ; x1cg   = 0 ; gmin   = gmax
             qrnorm = beta1
 
-- 
2.43.0


From c18ca11716b14235b1f312bf48b262d60d6f2630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 58/64] fix: MINRES and SYMMLQ do not take b'Ab = 0 for an
 ill-conditioned operator

---
 pykrylov/minres/minres.py | 4 ++--
 pykrylov/symmlq/symmlq.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 908486e..14b65c9 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -263,8 +263,8 @@ class Minres(KrylovMethod):
                         istop = -1            # Terminate later.
 
                     # tnorm2 = alfa**2  ??
-                    gmax   = abs(alfa)        # alpha1
-                    gmin   = gmax             # alpha1
+                    gmax   = 0.0
+                    gmin   = np.inf
 
                 # Apply previous rotation Qk-1 to get
                 #   [deltak epslnk+1] = [cs  sn][dbark    0   ]
diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 5705875..c460c1c 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -215,8 +215,8 @@ class Symmlq(KrylovMethod) :
             #  Initialize other quantities.
             cgnorm = beta1 ; rhs2   = 0 ; tnorm  = alfa**2 + beta**2
             gbar   = alfa  ; bstep  = 0 ; ynorm2 = 0
-            dbar   = beta  ; snprod = 1 ; gmax   = np.abs(alfa) or eps
-            rhs1   = beta1 ; x1cg   = 0 ; gmin   = gmax
+            dbar   = beta  ; snprod = 1 ; gmax   = 0
+            rhs1   = beta1 ; x1cg   = 0 ; gmin   = np.inf
             qrnorm = beta1
 
         # end  if beta1 > 0
@@ -262,7 +262,7 @@ class Symmlq(KrylovMethod) :
                     acond  = gmax / gmin
                 else:
                     denom  = min(gmin, np.abs(diag))
-                    acond  = gmax / denom
+                    acond  = max(gmax, np.abs(diag)) / denom
 
                 zbar = rhs1 / diag
                 z    = (snprod * zbar + bstep) / beta1
-- 
2.43.0


From fc6a50cad4882f864758b4b64da92697e1e7c471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:18 +0000
Subject: [PATCH 59/64] fix: CG, CGS and TFQMR solve a system whose right-hand
 side has integers

---
 pykrylov/cg/cg.py       | 4 ++--
 pykrylov/cgs/cgs.py     | 4 ++--
 pykrylov/tfqmr/tfqmr.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index c693256..98fb012 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -84,7 +84,7 @@ class CG( KrylovMethod ):
                 return
 
         # Initial guess
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, float)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
 
@@ -94,7 +94,7 @@ class CG( KrylovMethod ):
         matvec_max = kwargs.get('matvec_max', 2*n)
 
         # Initial residual vector
-        r = -rhs
+        r = -rhs.astype(result_type)
         if guess_supplied:
             r += self.op * x
             nMatvec += 1
diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index baab70d..44d3e74 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -50,12 +50,12 @@ class CGS( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, float)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
 
-        r0 = rhs  # Fixed vector throughout
+        r0 = rhs.astype(result_type)  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
             nMatvec += 1
diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 0d21c36..02ce1eb 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -49,12 +49,12 @@ class TFQMR( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, float)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
 
-        r0 = rhs  # Fixed vector throughout
+        r0 = rhs.astype(result_type)  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
             nMatvec += 1
-- 
2.43.0


From a858fbe079ab56eb6a695ea356a8604f6f80cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:18 +0000
Subject: [PATCH 60/64] fix: the least-squares solvers accept a right-hand side
 of integers

---
 pykrylov/lls/craig.py   | 4 ++--
 pykrylov/lls/craigmr.py | 5 +++--
 pykrylov/lls/lsmr.py    | 4 ++--
 pykrylov/lls/lsqr.py    | 4 ++--
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 9f5b984..a1bbb1c 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -17,7 +17,7 @@ dominique.orban@gerad.ca
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot, inf
+from numpy import zeros, dot, inf, result_type
 from numpy.linalg import norm
 from math import sqrt
 
@@ -209,7 +209,7 @@ class CRAIGFramework(KrylovMethod):
         dErr = zeros(window)     # Truncated direct error terms.
         trncDirErr = 0           # Truncated direct error.
 
-        Mu = rhs[:m].copy()
+        Mu = rhs[:m].astype(result_type(rhs.dtype, float))
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 0501892..cb3f43e 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -5,7 +5,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot
+from numpy import zeros, dot, result_type
 from numpy.linalg import norm
 from math import sqrt
 
@@ -74,7 +74,8 @@ class CRAIGMRFramework(KrylovMethod):
 
         # Initialize the Golub-Kahan bidiagonalization process.
 
-        Mu = b.copy()  # Don't want to change input vector.
+        # Don't want to change input vector.
+        Mu = b.astype(result_type(b.dtype, float))
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 30f8c10..a484b03 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -21,7 +21,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot, inf
+from numpy import zeros, dot, inf, result_type
 from numpy.linalg import norm
 from math import sqrt
 
@@ -209,7 +209,7 @@ class LSMRFramework(KrylovMethod):
 
         # Initialize the Golub-Kahan bidiagonalization process.
 
-        Mu = b.copy()
+        Mu = b.astype(result_type(b.dtype, float))
         if M is not None:
             u = M(Mu)
         else:
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index daf3a40..48c6ea9 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -13,7 +13,7 @@ Dominique Orban, Ecole Polytechnique de Montreal
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot, inf
+from numpy import zeros, dot, inf, result_type
 from numpy.linalg import norm
 from math import sqrt
 
@@ -185,7 +185,7 @@ class LSQRFramework(KrylovMethod):
         if store_iterates:
             self.iterates.append(x.copy())
 
-        Mu = rhs[:m].copy()
+        Mu = rhs[:m].astype(result_type(rhs.dtype, float))
         if M is not None:
             u = M(Mu)
         else:
-- 
2.43.0


From e8010df52436fc7126b03148a7cd4a1fab93db6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:18 +0000
Subject: [PATCH 61/64] fix: MINRES, SYMMLQ and Bi-CGSTAB solve in double
 precision whatever the right-hand side

---
 pykrylov/bicgstab/bicgstab.py | 4 ++--
 pykrylov/minres/minres.py     | 3 ++-
 pykrylov/symmlq/symmlq.py     | 1 +
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 60c1de2..6f15fb5 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -53,13 +53,13 @@ class BiCGSTAB( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, float)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
 
         # Initial residual is the fixed vector
-        r0 = rhs
+        r0 = rhs.astype(result_type)
         if guess_supplied:
             r0 = rhs - self.op * x
             nMatvec += 1
diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 14b65c9..b98d308 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -133,7 +133,8 @@ class Minres(KrylovMethod):
         self.dir_errors_window = []  # Direct error estimates.
         self.iterates = []
 
-        result_type = np.result_type(A.dtype, b.dtype)
+        result_type = np.result_type(A.dtype, b.dtype, float)
+        b = b.astype(result_type)
         x = zeros(n, dtype=result_type)
         xNrgNorm2 = 0.0          # Squared energy norm of final solution.
         dErr = zeros(window)     # Truncated direct error terms.
diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index c460c1c..2afeca6 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -83,6 +83,7 @@ class Symmlq(KrylovMethod) :
 
         # Set parameters
         n = rhs.shape[0]
+        rhs = rhs.astype(np.result_type(rhs.dtype, float))
         nMatvec = 0
 
         matvec_max = kwargs.get('matvec_max', 2*n+2)
-- 
2.43.0


From ba65e3c6c11033031d0a6a6fcfd148325fc79488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 62/64] fix: L-BFGS operators multiply vectors of integers

---
 pykrylov/linop/lbfgs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index b1b08d9..c38fd15 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -100,7 +100,7 @@ class InverseLBFGSOperator(LinearOperator):
         positive-definite approximation to the inverse Hessian matrix and the
         vector v using the LBFGS two-loop recursion formula.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v.dtype, float))
         s = self.s
         y = self.y
         ys = self.ys
@@ -146,7 +146,7 @@ class LBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and storing key dot products.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v.dtype, float))
         s = self.s
         y = self.y
         ys = self.ys
@@ -200,8 +200,8 @@ class CompactLBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and caching key dot products.
         """
-        q = v.copy()
-        r = v.copy()
+        q = v.astype(np.result_type(v.dtype, float))
+        r = q.copy()
         s = self.s
         y = self.y
         ys = self.ys
-- 
2.43.0


From d09d88b0fcf35c86889e827ca92d788f63804a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 63/64] fix: SYMMLQ never estimates a condition number below
 one

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 2afeca6..bc1a9c0 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -260,7 +260,7 @@ class Symmlq(KrylovMethod) :
                 # T(k+1) is not, so we must be careful not to overestimate acond
 
                 if lqnorm < cgnorm:
-                    acond  = gmax / gmin
+                    acond  = max(gmax / gmin, 1.0)  # 1 while there is none
                 else:
                     denom  = min(gmin, np.abs(diag))
                     acond  = max(gmax, np.abs(diag)) / denom
-- 
2.43.0


From 72fe0f00fef4b743a85204f7a5f7103688ed9bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:05 +0000
Subject: [PATCH 64/64] fix: a symmetric block operator holds the very blocks
 it was given

---
 pykrylov/linop/blkop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index c728675..9b794b6 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -114,8 +114,9 @@ class BlockLinearOperator(LinearOperator):
             matvec_adj=lambda x: blk_matvec(x, self._blocksH),
             dtype=op_dtype)
 
-        self.T._blocks = self._blocksT
-        self.H._blocks = self._blocksH
+        # An operator that is its own transpose or adjoint keeps its blocks.
+        if self.T is not self: self.T._blocks = self._blocksT
+        if self.H is not self: self.H._blocks = self._blocksH
 
     @property
     def blocks(self):
-- 
2.43.0

