From 830f585c8863956abb4e57401b990abc4d5b9960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 01/17] fix: forward stencil iterator lands on the wrong
 element when jumping backwards by whole lines or to the end

---
 src/cuda/forward_stencil_iterator.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cuda/forward_stencil_iterator.hpp b/src/cuda/forward_stencil_iterator.hpp
index a388ef9..2a6e469 100644
--- a/src/cuda/forward_stencil_iterator.hpp
+++ b/src/cuda/forward_stencil_iterator.hpp
@@ -125,14 +125,14 @@ private:
         distance_to_last -= dist;
 
         auto base_dist = dist + current_distance;
-        int backwards = base_dist < 0;
+        int backwards = (base_dist % max_stride_distance) < 0;
         int at_last = !(distance_to_last);
 
-        auto iter_dist = dist + (base_dist / max_stride_distance) * stencil_stride -
-                         backwards * stencil_stride - at_last * (stencil_stride - 1);
-        current_distance = backwards * max_stride_distance +
-                           base_dist % max_stride_distance +
-                           at_last * max_stride_distance;
+        // number of lines crossed, rounded down.  As in increment, the "last" position
+        // remains on the line it terminates
+        auto lines = base_dist / max_stride_distance - backwards - at_last;
+        auto iter_dist = dist + lines * stencil_stride;
+        current_distance = base_dist - lines * max_stride_distance;
         // if (distance_to_last == 0) {
         //     iter_dist -= (stencil_stride-1);
         //     current_distance = max_stride_distance;
-- 
2.43.0


From fe42afa36a1fd51e23ae7826af11d681b8fd92b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 02/17] fix: a span on the left of a stencil expression is
 paired with the wrong iterator

---
 src/cuda/stencil_proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuda/stencil_proxy.hpp b/src/cuda/stencil_proxy.hpp
index 2ffed40..de9578c 100644
--- a/src/cuda/stencil_proxy.hpp
+++ b/src/cuda/stencil_proxy.hpp
@@ -136,7 +136,7 @@ struct stencil_proxy : proxy_math<stencil_proxy<N, U, V, Op>> {
                 static_assert(true, "we should never get here");
         } else if constexpr (is_iter_math_v<U>) {
             if constexpr (is_stencil_proxy_v<V>)
-                return prepend_to_tuple(u(bnds...), v.get_iterators(bnds...));
+                return append_to_tuple(v.get_iterators(bnds...), u(bnds...));
             else if constexpr (is_number_v<V>)
                 return thrust::make_tuple(u(bnds...));
             else if constexpr (is_iter_math_v<V>) // I don't think this can happen
-- 
2.43.0


From 8096603d16c460171c2cf83b04e52d1556910f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 03/17] fix: bounds::size misses the last element of a range
 its stride does not divide

---
 src/cuda/md_bounds.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuda/md_bounds.hpp b/src/cuda/md_bounds.hpp
index ff5c22f..3b012d5 100644
--- a/src/cuda/md_bounds.hpp
+++ b/src/cuda/md_bounds.hpp
@@ -58,7 +58,7 @@ struct bounds {
     int lb() const { return first; }
     int ub() const { return last - 1; }
 
-    int size() const { return (last - first) / stride; }
+    int size() const { return (last - first + stride - 1) / stride; }
 };
 
 // Generally, the user will not be required to use anything in the `lazy` namespace
-- 
2.43.0


From 91c159e0a4965df31602ee41c7be0556d27ba16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 04/17] fix: applystencilonpatch2d ran the rows over the
 columns' range and vice versa

---
 m4/applystencil2d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/applystencil2d.m4 b/m4/applystencil2d.m4
index 747641a..80209d1 100755
--- a/m4/applystencil2d.m4
+++ b/m4/applystencil2d.m4
@@ -91,8 +91,8 @@ c
 c***********************************************************************
 c
       
-      do j=lo0,hi0
-         do i=lo1,hi1
+      do j=lo1,hi1
+         do i=lo0,hi0
             r(i,j)=b*f(i,j)
             do s=1,stencilsize
                io=offsets(1,s)
-- 
2.43.0


From 59bc7962cecebc628b2d51b7e2555e56eb48e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 05/17] fix: celladjustsystemrhspatch2d ran the rows over the
 columns' range and vice versa

---
 m4/celladjustrhs2d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/celladjustrhs2d.m4 b/m4/celladjustrhs2d.m4
index 93b4d4f..0308b94 100755
--- a/m4/celladjustrhs2d.m4
+++ b/m4/celladjustrhs2d.m4
@@ -166,8 +166,8 @@ c offsets are compact, ie at most offset by (+-1,+-1)
 c ul represents the local u values in the direction we are interested
 c in adjusting the stencil
 
-      do j=ifirst0,ilast0
-         do i=ifirst1,ilast1
+      do j=ifirst1,ilast1
+         do i=ifirst0,ilast0
             do s=1,noffsets
                io=offset(1,s)
                jo=offset(2,s)
-- 
2.43.0


From d7c26696b94962f2278a9bd598e47649ae9778a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 06/17] fix: cellgs1d declared f with the box of u

---
 m4/cellsmooth1d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/cellsmooth1d.m4 b/m4/cellsmooth1d.m4
index b7e3057..be304a7 100755
--- a/m4/cellsmooth1d.m4
+++ b/m4/cellsmooth1d.m4
@@ -101,7 +101,7 @@ c
       integer slo0, shi0
       REAL stencil(0:stencilsize-1,CELL1d(slo,shi,0))
       REAL u(CELL1d(ulo,uhi,0))
-      REAL f(CELL1d(ulo,uhi,0))
+      REAL f(CELL1d(flo,fhi,0))
       integer i,s, io
       REAL r
 
-- 
2.43.0


From 358f1a625f2fc1f24eae03dde88622b9d85714bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 07/17] fix: 2D red-black smoothers left the patch at negative
 odd rows

---
 m4/cellsmooth2d.m4 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m4/cellsmooth2d.m4 b/m4/cellsmooth2d.m4
index e32396d..e29449c 100755
--- a/m4/cellsmooth2d.m4
+++ b/m4/cellsmooth2d.m4
@@ -163,7 +163,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+mod(abs(j+color),2), hi0,2
             r = f(i,j)
             do s=1,stencilsize-1
                io=offset(0,s)
@@ -205,7 +205,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+mod(abs(j+color),2), hi0,2
             u(i,j) = (f(i,j)-stencil(1,i,j)*u(i-1,j)
      &                -stencil(2,i,j)*u(i+1,j)
      &                -stencil(3,i,j)*u(i,j-1)
@@ -244,7 +244,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+mod(abs(j+color),2), hi0,2
             u(i,j) = (f(i,j)-stencil(1,i,j)*u(i-1,j+0)
      &                      -stencil(2,i,j)*u(i+1,j+0)
      &                      -stencil(3,i,j)*u(i+0,j-1)
-- 
2.43.0


From 748797220adb3fdb901872cefe89d2c2fe773d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 08/17] fix: nodediffusionflux3d took the y coefficient for the
 z flux

---
 m4/nodediffusionflux3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/nodediffusionflux3d.m4 b/m4/nodediffusionflux3d.m4
index a5380af..62f027c 100755
--- a/m4/nodediffusionflux3d.m4
+++ b/m4/nodediffusionflux3d.m4
@@ -79,7 +79,7 @@ c
       do j = ifirst1, ilast1
          do i = ifirst0, ilast0
             do k = ifirst2, ilast2+1
-               flux2(k,i,j) = b1(k,i,j)*(u(i,j,k)-u(i,j,k-1))/dx(2)
+               flux2(k,i,j) = b2(k,i,j)*(u(i,j,k)-u(i,j,k-1))/dx(2)
             enddo
          enddo
       enddo
-- 
2.43.0


From 749a130d56f945ae39749869658992dd48da4a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 09/17] fix: 3D node operators took the y flux for the z
 divergence

---
 m4/nodediffusionapply3d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/nodediffusionapply3d.m4 b/m4/nodediffusionapply3d.m4
index d0fa5c3..4058039 100755
--- a/m4/nodediffusionapply3d.m4
+++ b/m4/nodediffusionapply3d.m4
@@ -128,7 +128,7 @@ c
             do i = ifirst0, ilast0
                diver = beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
      &                       (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
-     &                       (flux1(k+1,i,j) - flux1(k,i,j))/dx(2))
+     &                       (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
                lu = - diver +alpha*u(i,j,k)
                res(i,j,k) = b*f(i,j,k) +a*lu 
             enddo
@@ -178,7 +178,7 @@ c
             do i = ifirst0, ilast0
                lu = -beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
      &                     (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
-     &                     (flux1(k+1,i,j) - flux1(k,i,j))/dx(2))
+     &                     (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
                res(i,j,k) = b*f(i,j,k) + a*lu 
             enddo
          enddo
-- 
2.43.0


From 65d41f0c3efa5acba36991d220e633905eed509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 10/17] fix: 2D Dirichlet diagonal adjustment on the upper side
 changed the ghost cell's row

---
 m4/celldiffusionstencilcoeffs2d.m4 | 10 ++++++----
 m4/nodediffusionstencilcoeffs2d.m4 | 10 ++++++----
 src/cuda/cd_stencil_2d_cuda.cpp    |  4 ++--
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/m4/celldiffusionstencilcoeffs2d.m4 b/m4/celldiffusionstencilcoeffs2d.m4
index dc41061..26e1de1 100755
--- a/m4/celldiffusionstencilcoeffs2d.m4
+++ b/m4/celldiffusionstencilcoeffs2d.m4
@@ -291,26 +291,28 @@ c
             endif
          elseif (bdrytype.eq.DIRICHLET) then
             if (direction.eq.0) then
-               ie0 = pfirst0-side+1
+               ie0 = pfirst0-2*side+1
+               edge= pfirst0-side+1
                h=dx(0)
                if(extrapOrder.eq.1) then
                   do ic1 = pfirst1, plast1
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic1 = pfirst1, plast1
-                     factor = beta*b0(ie0,ic1)/(3.0d0*(h**2))
+                     factor = beta*b0(edge,ic1)/(3.0d0*(h**2))
                      stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)+factor
                   enddo
                endif
             elseif (direction.eq.1) then
-               ie1  = pfirst1-side+1
+               ie1  = pfirst1-2*side+1
+               edge= pfirst1-side+1
                h=dx(1)
                if(extrapOrder.eq.1) then
                   do ic0 = pfirst0, plast0
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic0 = pfirst0, plast0
-                     factor = beta*b1(ie1,ic0)/(3.0d0*(h**2))
+                     factor = beta*b1(edge,ic0)/(3.0d0*(h**2))
                      stencil(PP,ic0,ie1)=stencil(PP,ic0,ie1)+factor
                   enddo
                endif
diff --git a/m4/nodediffusionstencilcoeffs2d.m4 b/m4/nodediffusionstencilcoeffs2d.m4
index 10eb005..5cf98ab 100755
--- a/m4/nodediffusionstencilcoeffs2d.m4
+++ b/m4/nodediffusionstencilcoeffs2d.m4
@@ -280,26 +280,28 @@ c
             endif
          elseif (bdrytype.eq.DIRICHLET) then
             if (direction.eq.0) then
-               ie0 = pfirst0-side+1
+               ie0 = pfirst0-2*side+1
+               edge= pfirst0-side+1
                h=dx(0)
                if(extrapOrder.eq.1) then
                   do ic1 = pfirst1, plast1
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic1 = pfirst1, plast1
-                     factor = beta*b0(ie0,ic1)/(3.0d0*(h**2))
+                     factor = beta*b0(edge,ic1)/(3.0d0*(h**2))
                      stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)+factor
                   enddo
                endif
             elseif (direction.eq.1) then
-               ie1  = pfirst1-side+1
+               ie1  = pfirst1-2*side+1
+               edge= pfirst1-side+1
                h=dx(1)
                if(extrapOrder.eq.1) then
                   do ic0 = pfirst0, plast0
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic0 = pfirst0, plast0
-                     factor = beta*b1(ie1,ic0)/(3.0d0*(h**2))
+                     factor = beta*b1(edge,ic0)/(3.0d0*(h**2))
                      stencil(PP,ic0,ie1)=stencil(PP,ic0,ie1)+factor
                   enddo
                endif
diff --git a/src/cuda/cd_stencil_2d_cuda.cpp b/src/cuda/cd_stencil_2d_cuda.cpp
index 7362735..d353bcb 100644
--- a/src/cuda/cd_stencil_2d_cuda.cpp
+++ b/src/cuda/cd_stencil_2d_cuda.cpp
@@ -191,10 +191,10 @@ void cd_stencil_2d_cuda<T>::adj_diag(const int& i0,
     case 0:
         switch (T f = beta / (3 * h * h); dir) {
         case 0:
-            bt0(f, b0, pj, Ib{pi0 - side + 1, pi0 - side + 1});
+            bt0(f, b0.shift_x(side), pj, Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1});
             return;
         case 1:
-            bt0(f, b1, Jb{pj0 - side + 1, pj0 - side + 1}, pi);
+            bt0(f, b1.shift_y(side), Jb{pj0 - 2 * side + 1, pj0 - 2 * side + 1}, pi);
             return;
         } // switch (dir)
         break;
-- 
2.43.0


From 83987b30198217bfdd1a83cdce06f1f4b2728851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 11/17] fix: 3D Dirichlet diagonal adjustment on the upper side
 took the coefficient of the wrong face

---
 m4/celldiffusionstencilcoeffs3d.m4 | 6 +++---
 src/cuda/cd_stencil_3d_cuda.cpp    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/m4/celldiffusionstencilcoeffs3d.m4 b/m4/celldiffusionstencilcoeffs3d.m4
index 288701e..2765e1e 100755
--- a/m4/celldiffusionstencilcoeffs3d.m4
+++ b/m4/celldiffusionstencilcoeffs3d.m4
@@ -400,7 +400,7 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
-                factor = beta*b0(ie0,j,k)/(3.0d0*(h**2))
+                factor = beta*b0(ie0+side,j,k)/(3.0d0*(h**2))
                 stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)+factor
               enddo
             enddo
@@ -415,7 +415,7 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
-                factor = beta*b1(ie1,k,i)/(3.0d0*(h**2))
+                factor = beta*b1(ie1+side,k,i)/(3.0d0*(h**2))
                 stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)+factor
               enddo
             enddo
@@ -430,7 +430,7 @@ c
           else if (extrapOrder.eq.2) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-                factor = beta*b2(ie2,i,j)/(3.0d0*(h**2))
+                factor = beta*b2(ie2+side,i,j)/(3.0d0*(h**2))
                 stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)+factor
               enddo
             enddo
diff --git a/src/cuda/cd_stencil_3d_cuda.cpp b/src/cuda/cd_stencil_3d_cuda.cpp
index da2e43a..3cf701a 100644
--- a/src/cuda/cd_stencil_3d_cuda.cpp
+++ b/src/cuda/cd_stencil_3d_cuda.cpp
@@ -239,13 +239,13 @@ void cd_stencil_3d_cuda<T>::adj_diag(const int& i0,
     case 0:
         switch (T f = beta / (3 * h * h); dir) {
         case 0:
-            bt0(f, b0, pk, pj, pil);
+            bt0(f, b0.shift_x(side), pk, pj, pil);
             break;
         case 1:
-            bt0(f, b1, pk, pjl, pi);
+            bt0(f, b1.shift_y(side), pk, pjl, pi);
             break;
         case 2:
-            bt0(f, b2, pkl, pj, pi);
+            bt0(f, b2.shift_z(side), pkl, pj, pi);
             break;
         } // switch (dir)
         break;
-- 
2.43.0


From 183d4487693ca2ea95830ffb8fdf54307b4b8aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 12/17] fix: 3D node Dirichlet diagonal adjustment on the upper
 side changed the ghost cell's row

---
 m4/nodediffusionstencilcoeffs3d.m4 | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 0be0e62..66d2d34 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -393,7 +393,7 @@ c
          endif
       elseif (bdrytype.eq.DIRICHLET) then
         if (direction.eq.0) then
-          ie0 = pfirst0-side+1
+          ie0 = pfirst0-2*side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
@@ -402,13 +402,13 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
-                factor = beta*b0(ie0,j,k)/(3.0d0*(h**2))
+                factor = beta*b0(ie0+side,j,k)/(3.0d0*(h**2))
                 stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)+factor
               enddo
             enddo
           endif
         elseif (direction.eq.1) then
-          ie1  = pfirst1-side+1
+          ie1  = pfirst1-2*side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
@@ -417,13 +417,13 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
-                factor = beta*b1(ie1,k,i)/(3.0d0*(h**2))
+                factor = beta*b1(ie1+side,k,i)/(3.0d0*(h**2))
                 stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)+factor
               enddo
             enddo
           endif
         elseif (direction.eq.2) then
-          ie2  = pfirst2-side+1
+          ie2  = pfirst2-2*side+1
           if(extrapOrder.eq.1) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
@@ -432,7 +432,7 @@ c
           else if (extrapOrder.eq.2) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-                factor = beta*b2(ie2,i,j)/(3.0d0*(h**2))
+                factor = beta*b2(ie2+side,i,j)/(3.0d0*(h**2))
                 stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)+factor
               enddo
             enddo
@@ -589,7 +589,7 @@ c
             endif
       elseif (bdrytype.eq.DIRICHLET) then
         if (direction.eq.0) then
-          ie0 = pfirst0-side+1
+          ie0 = pfirst0-2*side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
@@ -604,7 +604,7 @@ c
             enddo
           endif
         elseif (direction.eq.1) then
-          ie1  = pfirst1-side+1
+          ie1  = pfirst1-2*side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
@@ -619,7 +619,7 @@ c
             enddo
           endif
         elseif (direction.eq.2) then
-          ie2  = pfirst2-side+1
+          ie2  = pfirst2-2*side+1
           if(extrapOrder.eq.1) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-- 
2.43.0


From 8095d8c96f765b31be88692edd432d0703d52cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 13/17] fix: 3D node boundary adjustments used the wrong cell,
 row or coefficient in places

---
 m4/nodediffusionstencilcoeffs3d.m4 | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 66d2d34..6be1a6e 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -729,7 +729,7 @@ c
          else if (interporder .eq. 2) then
             do j = pfirst1, plast1
                do i = pfirst0, plast0
-                  factor=dr1*beta*b1(edge,i,j)/(h**2)
+                  factor=dr1*beta*b2(edge,i,j)/(h**2)
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                enddo
             enddo
@@ -945,7 +945,7 @@ c
                   factor=beta*b1(ie1,k,i)
                   factor=factor/(h*(3.0*h+16.0*b1(ie1,k,i)))
                   stencil(NN,i,ie1-1,k)=-9.0*factor
-                  stencil(SS,1,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
+                  stencil(SS,i,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
                 enddo
               enddo
             endif
@@ -984,7 +984,7 @@ c
                   factor=beta*b2(ie2,i,j)
                   factor=factor/(h*(3.0*h+16.0*b2(ie2,i,j)))
                   stencil(TT,i,j,ie2-1)=-9.0*factor
-                  stencil(BB,1,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
+                  stencil(BB,i,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
                 enddo
               enddo
             endif
@@ -1256,7 +1256,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(NN,i,ie1-1,k)=-9.0*factor
-                  stencil(SS,1,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
+                  stencil(SS,i,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
                 enddo
               enddo
             endif
@@ -1293,7 +1293,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(TT,i,j,ie2-1)=-9.0*factor
-                  stencil(BB,1,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
+                  stencil(BB,i,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
                 enddo
               enddo
             endif
@@ -1657,7 +1657,7 @@ c
             enddo
          endif
       elseif (direction.eq.2) then
-         ie2 = pfirst1-side+1
+         ie2 = pfirst2-side+1
          if(side .eq. 0) then
             do j = pfirst1, plast1
                do i = pfirst0, plast0
-- 
2.43.0


From 2047acce6675af0940063a22bc003c39b017cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 14/17] fix: second-order Robin ghost value dropped beta from
 the second cell's weight

---
 m4/cellsetcorrectionbc1d.m4        |  4 ++--
 m4/cellsetcorrectionbc2d.m4        | 12 ++++++------
 m4/cellsetcorrectionbc3d.m4        | 24 ++++++++++++------------
 src/cuda/cd_correct_bc_1d_cuda.cpp |  2 +-
 src/cuda/cd_correct_bc_2d_cuda.cpp |  4 ++--
 src/cuda/cd_correct_bc_3d_cuda.cpp |  4 ++--
 6 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/m4/cellsetcorrectionbc1d.m4 b/m4/cellsetcorrectionbc1d.m4
index a8274f4..40663d5 100755
--- a/m4/cellsetcorrectionbc1d.m4
+++ b/m4/cellsetcorrectionbc1d.m4
@@ -95,7 +95,7 @@ c  Will do linear extrapolation
               b=d0(ilo)
               coeff(1)=8.0*alpha*b-6.0*beta*h
 	      coeff(1)=coeff(1)/(8.0*alpha*b+3.0*beta*h)
-              coeff(2)=h/(8.0*alpha*b+3.0*beta*h)
+              coeff(2)=beta*h/(8.0*alpha*b+3.0*beta*h)
               u(ilo-1)=coeff(1)*u(ilo)+coeff(2)*u(ilo+1)
             endif
          end if
@@ -120,7 +120,7 @@ c  Will do linear extrapolation
             else if ( extrapOrder .eq. 2) then
               b=d0(ihi+1)
               coeff(1)=(8.0*alpha*b-6.0*beta*h)/(8.0*alpha*b+3.0*beta*h)
-              coeff(2)=h/(8.0*alpha*b+3.0*beta*h)
+              coeff(2)=beta*h/(8.0*alpha*b+3.0*beta*h)
               u(ihi+1)=coeff(1)*u(ihi)+coeff(2)*u(ihi-1)
             endif
          end if
diff --git a/m4/cellsetcorrectionbc2d.m4 b/m4/cellsetcorrectionbc2d.m4
index 69dad4f..370ea62 100755
--- a/m4/cellsetcorrectionbc2d.m4
+++ b/m4/cellsetcorrectionbc2d.m4
@@ -124,7 +124,7 @@ c  Will do linear extrapolation
                      b=d0(ilo,j)
                      coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ilo-1,j)=coeff(1)*u(ilo,j)+coeff(2)*u(ilo+1,j)
                   endif
                end do
@@ -160,7 +160,7 @@ c  Will do linear extrapolation
                      b=d0(ihi+1,j)
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ihi+1,j)=coeff(1)*u(ihi,j)+coeff(2)*u(ihi-1,j)
                   endif
                end do
@@ -196,7 +196,7 @@ c  Will do linear extrapolation
                      b=d1(jlo, i)
                      coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(i, jlo-1)=coeff(1)*u(i, jlo)+coeff(2)*u(i, jlo+1)
                   endif
                end do
@@ -232,7 +232,7 @@ c  Will do linear extrapolation
                      b=d1(jhi+1,i)
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(i, jhi+1)=coeff(1)*u(i, jhi)+coeff(2)*u(i, jhi-1)
                   endif
                end do
@@ -363,7 +363,7 @@ c  Will do linear extrapolation
                      b=1.0
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ilo-1,j)=coeff(1)*u(ilo,j)+coeff(2)*u(ilo+1,j)
                   endif
                end do
@@ -396,7 +396,7 @@ c  Will do linear extrapolation
                      b=1.0
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ihi+1,j)=coeff(1)*u(ihi,j)+coeff(2)*u(ihi-1,j)
                   endif
                end do
diff --git a/m4/cellsetcorrectionbc3d.m4 b/m4/cellsetcorrectionbc3d.m4
index 4d17887..0cc5a7a 100755
--- a/m4/cellsetcorrectionbc3d.m4
+++ b/m4/cellsetcorrectionbc3d.m4
@@ -153,7 +153,7 @@ c  Will do linear extrapolation
                  b=d0(ilo,j,k)
                  coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                  coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                 coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                 coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                  u(ilo-1,j,k)=coeff(1)*u(ilo,j,k)+coeff(2)*u(ilo+1,j,k)
                 end do
                end do
@@ -203,7 +203,7 @@ c  Will do linear extrapolation
                   b=d0(ihi+1,j,k)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(ihi+1,j,k)=coeff(1)*u(ihi,j,k)+coeff(2)*u(ihi-1,j,k)
                  end do
                enddo
@@ -252,7 +252,7 @@ c  Will do linear extrapolation
                   b=d1(jlo,k,i)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,jlo-1,k)=coeff(1)*u(i,jlo,k)+coeff(2)*u(i,jlo+1,k)
                  end do
                enddo
@@ -301,7 +301,7 @@ c  Will do linear extrapolation
                   b=d1(jhi+1,k,i)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,jhi+1,k)=coeff(1)*u(i,jhi,k)+coeff(2)*u(i,jhi-1,k)
                  end do
                enddo
@@ -350,7 +350,7 @@ c  Will do linear extrapolation
                   b=d2(klo,i,j)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,j,klo-1)=coeff(1)*u(i,j,klo)+coeff(2)*u(i,j,klo+1)
                  end do
                enddo
@@ -399,7 +399,7 @@ c  Will do linear extrapolation
                   b=d2(khi+1,i,j)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,j,khi+1)=coeff(1)*u(i,j,khi)+coeff(2)*u(i,j,khi-1)
                  end do
                enddo
@@ -621,7 +621,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do j = jlo, jhi
                   u(ilo-1,j,k)=coeff(1)*u(ilo,j,k)+coeff(2)*u(ilo+1,j,k)
@@ -671,7 +671,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do j = jlo, jhi
                   u(ihi+1,j,k)=coeff(1)*u(ihi,j,k)+coeff(2)*u(ihi-1,j,k)
@@ -720,7 +720,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do i = ilo, ihi
                   u(i,jlo-1,k)=coeff(1)*u(i,jlo,k)+coeff(2)*u(i,jlo+1,k)
@@ -769,7 +769,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do i = ilo, ihi
                   u(i,jhi+1,k)=coeff(1)*u(i,jhi,k)+coeff(2)*u(i,jhi-1,k)
@@ -818,7 +818,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do j = jlo, jhi
                  do i = ilo, ihi
                   u(i,j,klo-1)=coeff(1)*u(i,j,klo)+coeff(2)*u(i,j,klo+1)
@@ -867,7 +867,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do j = jlo, jhi
                  do i = ilo, ihi
                   u(i,j,khi+1)=coeff(1)*u(i,j,khi)+coeff(2)*u(i,j,khi-1)
diff --git a/src/cuda/cd_correct_bc_1d_cuda.cpp b/src/cuda/cd_correct_bc_1d_cuda.cpp
index c7f1616..8397c2c 100644
--- a/src/cuda/cd_correct_bc_1d_cuda.cpp
+++ b/src/cuda/cd_correct_bc_1d_cuda.cpp
@@ -67,7 +67,7 @@ void cd_correct_bc_1d_cuda<T>::set_bc(const int& i0,
                 with_domain(FWD(p)...)(u = ((8 * alpha * d - 6 * beta * h) /
                                             ((8 * alpha * d + 3 * beta * h))) *
                                                u1 +
-                                           h / ((8 * alpha * d + 3 * beta * h)) * u2);
+                                           beta * h / ((8 * alpha * d + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
diff --git a/src/cuda/cd_correct_bc_2d_cuda.cpp b/src/cuda/cd_correct_bc_2d_cuda.cpp
index 3f0df2c..495f98d 100644
--- a/src/cuda/cd_correct_bc_2d_cuda.cpp
+++ b/src/cuda/cd_correct_bc_2d_cuda.cpp
@@ -78,7 +78,7 @@ void cd_correct_bc_2d_cuda<T>::set_bc(const int& i0,
                 with_domain(FWD(p)...)(u = ((8 * alpha * d - 6 * beta * h) /
                                             ((8 * alpha * d + 3 * beta * h))) *
                                                u1 +
-                                           h / ((8 * alpha * d + 3 * beta * h)) * u2);
+                                           beta * h / ((8 * alpha * d + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
@@ -179,7 +179,7 @@ void cd_correct_bc_2d_cuda<T>::set_poisson_bc(const int& i0,
             } else if (exOrder == 2) {
                 with_domain(FWD(p)...)(
                     u = ((8 * alpha - 6 * beta * h) / ((8 * alpha + 3 * beta * h))) * u1 +
-                        h / ((8 * alpha + 3 * beta * h)) * u2);
+                        beta * h / ((8 * alpha + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
diff --git a/src/cuda/cd_correct_bc_3d_cuda.cpp b/src/cuda/cd_correct_bc_3d_cuda.cpp
index 2a29b53..e724fff 100644
--- a/src/cuda/cd_correct_bc_3d_cuda.cpp
+++ b/src/cuda/cd_correct_bc_3d_cuda.cpp
@@ -82,7 +82,7 @@ void cd_correct_bc_3d_cuda<T>::set_bc(const int& i0,
                 with_domain(FWD(p)...)(u = ((8 * alpha * d - 6 * beta * h) /
                                             ((8 * alpha * d + 3 * beta * h))) *
                                                u1 +
-                                           h / ((8 * alpha * d + 3 * beta * h)) * u2);
+                                           beta * h / ((8 * alpha * d + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
@@ -238,7 +238,7 @@ void cd_correct_bc_3d_cuda<T>::set_poisson_bc(const int& i0,
             } else if (exOrder == 2) {
                 with_domain(FWD(p)...)(
                     u = ((8 * alpha - 6 * beta * h) / ((8 * alpha + 3 * beta * h))) * u1 +
-                        h / ((8 * alpha + 3 * beta * h)) * u2);
+                        beta * h / ((8 * alpha + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
-- 
2.43.0


From e208971357f48527f091e647dbe1bbb3ee00e4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:16 +0000
Subject: [PATCH 15/17] fix: Robin diagonal adjustment multiplied by 3h+16b
 where it has to divide

---
 m4/celldiffusionstencilcoeffs1d.m4 |  8 ++++----
 m4/celldiffusionstencilcoeffs2d.m4 | 10 ++++++----
 m4/celldiffusionstencilcoeffs3d.m4 | 24 ++++++++++++------------
 m4/nodediffusionstencilcoeffs1d.m4 |  8 ++++----
 m4/nodediffusionstencilcoeffs2d.m4 | 10 ++++++----
 m4/nodediffusionstencilcoeffs3d.m4 | 24 ++++++++++++------------
 src/cuda/cd_stencil_1d_cuda.cpp    |  4 ++--
 src/cuda/cd_stencil_2d_cuda.cpp    |  4 ++--
 src/cuda/cd_stencil_3d_cuda.cpp    |  4 ++--
 9 files changed, 50 insertions(+), 46 deletions(-)

diff --git a/m4/celldiffusionstencilcoeffs1d.m4 b/m4/celldiffusionstencilcoeffs1d.m4
index 7e23f78..3974336 100755
--- a/m4/celldiffusionstencilcoeffs1d.m4
+++ b/m4/celldiffusionstencilcoeffs1d.m4
@@ -249,13 +249,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
@@ -309,13 +309,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
diff --git a/m4/celldiffusionstencilcoeffs2d.m4 b/m4/celldiffusionstencilcoeffs2d.m4
index 26e1de1..9dc2376 100755
--- a/m4/celldiffusionstencilcoeffs2d.m4
+++ b/m4/celldiffusionstencilcoeffs2d.m4
@@ -259,7 +259,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+     &                     /(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -267,7 +268,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+     &                     /(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
@@ -362,7 +364,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -370,7 +372,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
diff --git a/m4/celldiffusionstencilcoeffs3d.m4 b/m4/celldiffusionstencilcoeffs3d.m4
index 2765e1e..665f125 100755
--- a/m4/celldiffusionstencilcoeffs3d.m4
+++ b/m4/celldiffusionstencilcoeffs3d.m4
@@ -300,7 +300,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(ie0,j, k)
-                  factor=factor/h*(3.0*h+16.0*b0(ie0,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(ie0,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -315,7 +315,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(ie0+1,j,k)
-                  factor=factor/h*(3.0*h+16.0*b0(ie0+1,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(ie0+1,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -333,7 +333,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(ie1,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(ie1,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(ie1,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -348,7 +348,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(ie1+1,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(ie1+1,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(ie1+1,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -366,7 +366,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(ie2,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(ie2,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(ie2,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -381,7 +381,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(ie2+1,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(ie2+1,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(ie2+1,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -484,7 +484,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -499,7 +499,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -517,7 +517,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -532,7 +532,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -550,7 +550,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
@@ -565,7 +565,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
diff --git a/m4/nodediffusionstencilcoeffs1d.m4 b/m4/nodediffusionstencilcoeffs1d.m4
index e51aee0..552e552 100755
--- a/m4/nodediffusionstencilcoeffs1d.m4
+++ b/m4/nodediffusionstencilcoeffs1d.m4
@@ -237,13 +237,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
@@ -295,13 +295,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
diff --git a/m4/nodediffusionstencilcoeffs2d.m4 b/m4/nodediffusionstencilcoeffs2d.m4
index 5cf98ab..2609196 100755
--- a/m4/nodediffusionstencilcoeffs2d.m4
+++ b/m4/nodediffusionstencilcoeffs2d.m4
@@ -248,7 +248,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+     &                     /(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -256,7 +257,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+     &                     /(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
@@ -349,7 +351,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -357,7 +359,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 6be1a6e..6df69b5 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -291,7 +291,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(edge,j, k)
-                  factor=factor/h*(3.0*h+16.0*b0(edge,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(edge,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -306,7 +306,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(edge,j,k)
-                  factor=factor/h*(3.0*h+16.0*b0(edge,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(edge,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -325,7 +325,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(edge,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(edge,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(edge,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -340,7 +340,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(edge,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(edge,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(edge,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -359,7 +359,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(edge,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(edge,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(edge,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -374,7 +374,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(edge,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(edge,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(edge,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -485,7 +485,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -500,7 +500,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -519,7 +519,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -534,7 +534,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -553,7 +553,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
@@ -568,7 +568,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
diff --git a/src/cuda/cd_stencil_1d_cuda.cpp b/src/cuda/cd_stencil_1d_cuda.cpp
index 3a3f66a..0ddca44 100644
--- a/src/cuda/cd_stencil_1d_cuda.cpp
+++ b/src/cuda/cd_stencil_1d_cuda.cpp
@@ -149,7 +149,7 @@ void cd_stencil_1d_cuda<T>::adj_diag(const int& i0,
         const auto pi = Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1};
         if (exOrder == 2) {
             auto b = b0.shift_x(side);
-            with_domain(st.window(), pi)(st(0) = st(0) - (f * b) * (3 * h + 16 * b));
+            with_domain(st.window(), pi)(st(0) = st(0) - (f * b) / (3 * h + 16 * b));
             st.copy_to(st_);
         }
     }
@@ -179,7 +179,7 @@ void cd_stencil_1d_cuda<T>::adj_poisson_diag(const int& i0,
         const auto pi = Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1};
 
         T f = beta / h;
-        with_domain(st.window(), pi)(st(0) = st(0) - (f * (3 * h + 16)));
+        with_domain(st.window(), pi)(st(0) = st(0) - (f / (3 * h + 16)));
         st.copy_to(st_);
     }
 }
diff --git a/src/cuda/cd_stencil_2d_cuda.cpp b/src/cuda/cd_stencil_2d_cuda.cpp
index d353bcb..996442d 100644
--- a/src/cuda/cd_stencil_2d_cuda.cpp
+++ b/src/cuda/cd_stencil_2d_cuda.cpp
@@ -168,7 +168,7 @@ void cd_stencil_2d_cuda<T>::adj_diag(const int& i0,
     auto bt4 = [&](T f, auto&& b, auto&&... p) mutable {
         if (exOrder == 2) {
             with_domain(st.window(),
-                        FWD(p)...)(st(0) = st(0) - (f * b) * (3 * h + 16 * b));
+                        FWD(p)...)(st(0) = st(0) - (f * b) / (3 * h + 16 * b));
             st.copy_to(st_);
         }
     };
@@ -230,7 +230,7 @@ void cd_stencil_2d_cuda<T>::adj_poisson_diag(const int& i0,
     if (btype == 4 && exOrder == 2 && dir == 0) {
         T f = beta / h;
         const auto pi = Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1};
-        with_domain(st.window(), pj, pi)(st(0) = st(0) - (f * (3 * h + 16)));
+        with_domain(st.window(), pj, pi)(st(0) = st(0) - (f / (3 * h + 16)));
         st.copy_to(st_);
     }
 }
diff --git a/src/cuda/cd_stencil_3d_cuda.cpp b/src/cuda/cd_stencil_3d_cuda.cpp
index 3cf701a..7a1e2bf 100644
--- a/src/cuda/cd_stencil_3d_cuda.cpp
+++ b/src/cuda/cd_stencil_3d_cuda.cpp
@@ -210,7 +210,7 @@ void cd_stencil_3d_cuda<T>::adj_diag(const int& i0,
     auto bt4 = [&](T f, auto&& b, auto&&... p) mutable {
         if (exOrder == 2) {
             with_domain(st.window(),
-                        FWD(p)...)(st(0) = st(0) - (f * b) * (3 * h + 16 * b));
+                        FWD(p)...)(st(0) = st(0) - (f * b) / (3 * h + 16 * b));
             st.copy_to(st_);
         }
     };
@@ -291,7 +291,7 @@ void cd_stencil_3d_cuda<T>::adj_poisson_diag(const int& i0,
     const auto pkl = Kb{pk0 - 2 * side + 1, pk0 - 2 * side + 1};
 
     auto bt4 = [&](T f, auto&&... p) mutable {
-        with_domain(st.window(), FWD(p)...)(st(0) = st(0) - (f * (3 * h + 16)));
+        with_domain(st.window(), FWD(p)...)(st(0) = st(0) - (f / (3 * h + 16)));
         st.copy_to(st_);
     };
     auto bt0 = [&](T f, auto&&... p) mutable {
-- 
2.43.0


From 783df675096c81e2029cbd1f5e44fdc0684d7a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 16/17] fix: setting an offset discarded what had been written
 through the data pointer

---
 src/md_device_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/md_device_vector.hpp b/src/md_device_vector.hpp
index c5ba9d6..88127f1 100644
--- a/src/md_device_vector.hpp
+++ b/src/md_device_vector.hpp
@@ -124,9 +124,12 @@ public:
         assert(sz == b[N-1].size());
 
         int idx[] = {args...};
+        // the host copy may be older than what was written on the device
+        if (!sync) h = d;
         for (int i = 0; i < sz; i++) h[n * sz + i] = idx[i];
 
         d = h;
+        sync = true;
     }
 
 private:
-- 
2.43.0


From 3bbaddc115a954b5a07407e7bb925671ba389514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:33 +0000
Subject: [PATCH 17/17] fix: stencil dot product over a strided domain scaled
 the offsets by the stride

---
 src/cuda/md_device_span.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cuda/md_device_span.hpp b/src/cuda/md_device_span.hpp
index 06937d0..15884df 100644
--- a/src/cuda/md_device_span.hpp
+++ b/src/cuda/md_device_span.hpp
@@ -122,6 +122,9 @@ make_gradient_transform(Vec&& vec, T h)
 // Note that we manually flip the order of the strides here to match the reversed order of
 // the offsets.  This is brittle and should be fixed at some point
 //
+// The strides of the iterator step from cell to cell of the domain.  The offsets count
+// elements, so a strided domain's steps need to be taken out again.
+//
 template <int N>
 struct dot_impl {
     int stride[N];
@@ -129,9 +132,10 @@ struct dot_impl {
     int n;
 
     template <typename U>
-    dot_impl(U&& u, thrust::device_ptr<int> o, int n) : offsets{o}, n{n}
+    dot_impl(U&& u, const int (&stm)[N], thrust::device_ptr<int> o, int n)
+        : offsets{o}, n{n}
     {
-        for (int i = 0; i < N; i++) stride[N - 1 - i] = u.stride_dim(i);
+        for (int i = 0; i < N; i++) stride[N - 1 - i] = u.stride_dim(i) / stm[i];
     }
 
     template <typename Tp>
@@ -166,9 +170,10 @@ struct dot_helper : iter_math<dot_helper<U, V>> {
         constexpr int N = sizeof...(O); // dims
         thrust::device_ptr<int> o = v.o;
         int n = std::get<N>(u.dir_bounds()).size();
+        const int stm[] = {bnds.stride...};
 
         return thrust::make_transform_iterator(thrust::make_zip_iterator(u_it, v_it),
-                                               dot_impl<N>{v_it, o, n});
+                                               dot_impl<N>{v_it, stm, o, n});
     }
 };
 
-- 
2.43.0

