From 0cfe94521d9bd77aeca1d3c36492ccc5303ca229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:42 +0000
Subject: [PATCH 01/15] fix: upwindOMP5 ran the time steps concurrently on
 different teams

---
 upwind/cxx/upwindOMP5.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/upwind/cxx/upwindOMP5.cxx b/upwind/cxx/upwindOMP5.cxx
index 685bc0c..f02ef5a 100644
--- a/upwind/cxx/upwindOMP5.cxx
+++ b/upwind/cxx/upwindOMP5.cxx
@@ -65,15 +65,14 @@ void advect(int numTimeSteps, double deltaTime) {
             map(alloc:fOldPtr[0:ntot]) map(tofrom: fPtr[0:ntot])
     {
 	
-       #pragma omp target teams distribute
 	   for (int istep = 0; istep < numTimeSteps; ++istep) {
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
                 fOldPtr[i] = fPtr[i];
             }
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
 
 
-- 
2.43.0


From 96ee71f51ef1e414ca87dbe5e1e0e3da5106b8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:00 +0000
Subject: [PATCH 02/15] fix: thread-private variables shared in the Fortran
 start-up parallel region

---
 upwind/fortran/upwind.F90    | 2 +-
 upwind/fortran/upwindF03.F90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 0e2d7bc..ab061cd 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -284,7 +284,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index a6ce65f..199ae20 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -291,7 +291,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
-- 
2.43.0


From f8c756986a3da0e836750725765dbae20cfbaebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:15 +0000
Subject: [PATCH 03/15] fix: candidate process counts were multiplied in int,
 truncating large products

---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index 8c0f2a3..b65411a 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -55,7 +55,7 @@ CubeDecomp::computeOptimalDecomp() {
       for (size_t j = 0; j < this->ndims; ++j) {
         decomp[j] = primeNumbers[j][ decompInds[j] ];
       }
-      size_t n = std::accumulate(decomp.begin(), decomp.end(), 1, std::multiplies<size_t>());
+      size_t n = std::accumulate(decomp.begin(), decomp.end(), size_t(1), std::multiplies<size_t>());
       if (n == this->nprocs) {
         validDecomps.push_back(decomp);
       }
-- 
2.43.0


From b4023c16972f5c6b8a385d6de54487b6874fe4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:15 +0000
Subject: [PATCH 04/15] fix: the first valid decomposition was never compared
 with the others

---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index b65411a..7067dc8 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -71,7 +71,7 @@ CubeDecomp::computeOptimalDecomp() {
     // find the optimal decomp
     std::vector<size_t> bestDecomp = validDecomps[0];
     double minCost = std::numeric_limits<double>::max();
-    for (size_t i = 1; i < validDecomps.size(); ++i) {
+    for (size_t i = 0; i < validDecomps.size(); ++i) {
       double cost = this->computeCost(validDecomps[i]);
       if (cost < minCost) {
         minCost = cost;
-- 
2.43.0


From 802186694b2df40e48990c14a77ac7ac7e1c2814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:15 +0000
Subject: [PATCH 05/15] fix: negative displaced indices were wrapped with an
 unsigned remainder

---
 cxx/Filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 005b23e..e86ec44 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -237,7 +237,8 @@ Filter::applyFilter() {
         for (size_t j = 0; j < this->ndims; ++j) {
           indOffset[j] = (int) inds[j] + offset[j];
           // periodic boundary conditions
-          indOffset[j] %= this->globalDims[j];
+          const int numCells = (int) this->globalDims[j];
+          indOffset[j] = (indOffset[j] % numCells + numCells) % numCells;
 
           // check if inside local MPI domain
           insideLocalDomain &= (indOffset[j] >= (int) this->lo[j]);
-- 
2.43.0


From 8c211324c2e5314624eddbd74a42d511040bbefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:15 +0000
Subject: [PATCH 06/15] fix: stencil branches reaching further than one cell
 used a too narrow halo and the wrong neighbour

---
 cxx/Filter.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index e86ec44..b31d0dc 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -70,10 +70,14 @@ Filter::Filter(const std::vector<size_t>& globalDims,
       const std::vector<int> side = this->getSideFromOffset(offset);
       const size_t numGhosts = this->getNumberOfGhostsFromOffset(offset);
 
-      std::pair< std::vector<int>, size_t > pSNG(side, numGhosts);
-      this->winNumGhosts.insert(pSNG);
+      // a side must be wide enough for all the branches that reach across it
+      size_t& numGhostsOfSide = this->winNumGhosts[side];
+      numGhostsOfSide = (numGhosts > numGhostsOfSide? numGhosts: numGhostsOfSide);
+    }
 
-      this->newWindow(side);
+    for (std::map< std::vector<int>, size_t >::const_iterator it = this->winNumGhosts.begin(); 
+      it != this->winNumGhosts.end(); ++it) {
+      this->newWindow(it->first);
     }
 }
 
@@ -210,7 +214,12 @@ Filter::applyFilter() {
       const std::vector<int>& side = this->getSideFromOffset(offset);
 
       // apply periodic BCs, sub-domains wrap around to find the neighbor rank
-      int neighborRk = this->dcmp.getNeighborRank(this->rk, offset);
+      // (the direction is opposite to the side, whatever the length of the offset)
+      std::vector<int> direction(this->ndims);
+      for (size_t j = 0; j < this->ndims; ++j) {
+        direction[j] = -side[j];
+      }
+      int neighborRk = this->dcmp.getNeighborRank(this->rk, direction);
 
       MultiArrayIter wit = this->getWindowIter(neighborRk, side);
 
-- 
2.43.0


From f055f4c01133d54bd315fd94972f2902daf656a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:50 +0000
Subject: [PATCH 07/15] fix: cell values were written to the VTK file without a
 separator

---
 upwind/python/saveVTK.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/saveVTK.py b/upwind/python/saveVTK.py
index 8ca5095..94cab6a 100644
--- a/upwind/python/saveVTK.py
+++ b/upwind/python/saveVTK.py
@@ -57,6 +57,6 @@ def rectilinear(fname, xAxis, yAxis, zAxis, data):
     f.write("LOOKUP_TABLE default\n")
       
     for i in range(len(flatData)):
-      f.write(f'{flatData[i]}')
+      f.write(f'{flatData[i]} ')
       if (i + 1) % 10 == 0:
           f.write('\n')
-- 
2.43.0


From 4b7552cee51e23c0fe2ddbaeaafeb3f4fec2f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:05 +0000
Subject: [PATCH 08/15] fix: coordinates of the VTK file were in the opposite
 axis order to the dimensions and the data

---
 upwind/fortran/upwind.F90       | 26 +++++++++++++-------------
 upwind/fortran/upwindF03.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08Gpu.F90 | 26 +++++++++++++-------------
 4 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index ab061cd..d510fc9 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -182,10 +182,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(1) + 1, ' double'
-        do i = 1, obj % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
-        enddo
+        if (obj % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(3) + 1, ' double'
+            do i = 1, obj % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (obj % ndims > 1) then
@@ -199,15 +204,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (obj % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(3) + 1, ' double'
-            do i = 1, obj % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(1) + 1, ' double'
+        do i = 1, obj % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', obj % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 199ae20..910146f 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -190,10 +190,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -207,15 +212,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index de381bc..b2ef655 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -194,10 +194,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -211,15 +216,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 17d9dd0..a798e19 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -287,10 +287,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -304,15 +309,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
-- 
2.43.0


From 3f60a75ae385fe76fafc1d21c397cc8ed0b0fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:05 +0000
Subject: [PATCH 09/15] fix: the status tested after reading an argument was
 never set

---
 matmult/fortran/matmult.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matmult/fortran/matmult.F90 b/matmult/fortran/matmult.F90
index fb507ee..9794f11 100644
--- a/matmult/fortran/matmult.F90
+++ b/matmult/fortran/matmult.F90
@@ -97,7 +97,7 @@ program test
         if (len_trim(argv) == 0) exit
 
         ! covnert string to integer
-        read(argv, *) val
+        read(argv, *, iostat=ier) val
 
         if (ier == 0) then
 
-- 
2.43.0


From 5aa1568b3c4bfad2bc43e6bd28f58aed0566da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:05 +0000
Subject: [PATCH 10/15] fix: saveVTK takes no reference into the receive
 buffer, which is empty on all ranks but the root

---
 cxx/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index b31d0dc..d8b477f 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -511,7 +511,7 @@ Filter::saveVTK(const std::string& filename) {
 
     // gather the data
     MPI_Gather(&this->outData.front(), nLocal, MPI_DOUBLE,
-               &recvBuffer.front(), nLocal, MPI_DOUBLE,
+               recvBuffer.data(), nLocal, MPI_DOUBLE,
                0, MPI_COMM_WORLD);
 
     std::vector<double> globalField;
-- 
2.43.0


From c1859db3a6aefaac618e80b9d5704c54fb6ae9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 11/15] fix: keep the exponent letter of tiny values in the VTK
 files of the Fortran programs

e20.7 leaves out the E when the exponent needs three digits (0.3666542-100),
which VTK readers take for another number. e20.7e3 always writes it.
---
 upwind/fortran/upwind.F90       | 8 ++++----
 upwind/fortran/upwindF03.F90    | 8 ++++----
 upwind/fortran/upwindF08.F90    | 8 ++++----
 upwind/fortran/upwindF08Gpu.F90 | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index d510fc9..bdbb971 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -185,7 +185,7 @@ contains
         if (obj % ndims > 2) then
             write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(3) + 1, ' double'
             do i = 1, obj % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + obj % deltas(3) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'X_COORDINATES 1 double'
@@ -196,7 +196,7 @@ contains
         if (obj % ndims > 1) then
             write(iunit, '(a, i10, a)') 'Y_COORDINATES ', obj % numCells(2) + 1, ' double'
             do i = 1, obj % numCells(2) + 1
-                write(iunit, '(e20.7)') 0.0 + obj % deltas(2) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + obj % deltas(2) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'Y_COORDINATES 1 double'
@@ -206,14 +206,14 @@ contains
         write(iunit, *) 
         write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(1) + 1, ' double'
         do i = 1, obj % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
+            write(iunit, '(e20.7e3)') 0.0 + obj % deltas(1) * (i - 1)
         enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', obj % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, obj % ntot
-            write(iunit, '(e20.7)') obj % f(i)
+            write(iunit, '(e20.7e3)') obj % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 910146f..4d19c56 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -193,7 +193,7 @@ contains
         if (this % ndims > 2) then
             write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
             do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(3) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'X_COORDINATES 1 double'
@@ -204,7 +204,7 @@ contains
         if (this % ndims > 1) then
             write(iunit, '(a, i10, a)') 'Y_COORDINATES ', this % numCells(2) + 1, ' double'
             do i = 1, this % numCells(2) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(2) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(2) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'Y_COORDINATES 1 double'
@@ -214,14 +214,14 @@ contains
         write(iunit, *) 
         write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
         do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+            write(iunit, '(e20.7e3)') 0.0 + this % deltas(1) * (i - 1)
         enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index b2ef655..7e18288 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -197,7 +197,7 @@ contains
         if (this % ndims > 2) then
             write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
             do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(3) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'X_COORDINATES 1 double'
@@ -208,7 +208,7 @@ contains
         if (this % ndims > 1) then
             write(iunit, '(a, i10, a)') 'Y_COORDINATES ', this % numCells(2) + 1, ' double'
             do i = 1, this % numCells(2) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(2) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(2) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'Y_COORDINATES 1 double'
@@ -218,14 +218,14 @@ contains
         write(iunit, *) 
         write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
         do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+            write(iunit, '(e20.7e3)') 0.0 + this % deltas(1) * (i - 1)
         enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index a798e19..2de5ff3 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -290,7 +290,7 @@ contains
         if (this % ndims > 2) then
             write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
             do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(3) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'X_COORDINATES 1 double'
@@ -301,7 +301,7 @@ contains
         if (this % ndims > 1) then
             write(iunit, '(a, i10, a)') 'Y_COORDINATES ', this % numCells(2) + 1, ' double'
             do i = 1, this % numCells(2) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(2) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(2) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'Y_COORDINATES 1 double'
@@ -311,14 +311,14 @@ contains
         write(iunit, *) 
         write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
         do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+            write(iunit, '(e20.7e3)') 0.0 + this % deltas(1) * (i - 1)
         enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
-- 
2.43.0


From c6903839614b31ec2814c9e40ace773400035ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 12/15] fix: gather plain arrays on the root in the distributed
 Python program

---
 upwind/python/upwindMPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 8cfdce2..95e51b0 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -115,7 +115,7 @@ class Upwind:
     if self.rk == 0:
       res = numpy.zeros(self.numCells, numpy.float64)
 
-    fRoot = MPI.COMM_WORLD.gather(self.f, root=0)
+    fRoot = MPI.COMM_WORLD.gather(numpy.array(self.f), root=0)
 
     if self.rk == 0:
       for rk in range(self.sz):
-- 
2.43.0


From a751787363bc618b6c087f388e244b03de13aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:49 +0000
Subject: [PATCH 13/15] fix: release the memory of a window after the window,
 as the MPI standard requires

---
 cxx/Filter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index d8b477f..47db4b8 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -352,17 +352,17 @@ Filter::newWindow(const std::vector<int>& side) {
 void 
 Filter::deleteWindow(const std::vector<int>& side) {
 
+    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
+    if (winIt != this->windows.end()) {
+      MPI_Win_free(&winIt->second);
+    }
+
     std::map< std::vector<int>, std::pair<double*, double*> >::iterator dataIt = this->winData.find(side);
     if (dataIt != this->winData.end()) {
       MPI_Free_mem(dataIt->second.first);
       MPI_Free_mem(dataIt->second.second);
     }
     
-    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
-    if (winIt != this->windows.end()) {
-      MPI_Win_free(&winIt->second);
-    }
-
 }
 
 void 
-- 
2.43.0


From 11007f2cf8538a51b8124aff6bc39f587bbaffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:35 +0000
Subject: [PATCH 14/15] fix: index gathered values of large grids in size_t,
 rank times local size overflowed int

---
 cxx/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 47db4b8..892d405 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -538,7 +538,7 @@ Filter::saveVTK(const std::string& filename) {
             globalInds[i] = begInds[i] + localInds[i];
           }
           size_t globalBigIndex = globalIt.computeBigIndex(globalInds);
-          globalField[globalBigIndex] = recvBuffer[rk*nLocal + iLocal];
+          globalField[globalBigIndex] = recvBuffer[size_t(rk)*nLocal + iLocal];
           this->mit.next();
         }
       }
-- 
2.43.0


From 1f824e549afa2f2d3001857284d9b0a436858ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:22 +0000
Subject: [PATCH 15/15] fix: upwindF08Gpu: numThreads was written by every
 thread of the start-up parallel region

---
 upwind/fortran/upwindF08Gpu.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 2de5ff3..83a3334 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -377,7 +377,9 @@ program main
     type(upwind_type) :: up
 #ifdef HAVE_OPENMP
     !$omp parallel
+    !$omp single
     numThreads = omp_get_num_threads()
+    !$omp end single
     !$omp end parallel
     maxNumThreads = omp_get_max_threads()
     write(*, '(A,I4,A,I4)') 'Number of OpenMP threads: ', numThreads, ' out of a max number: ', maxNumThreads
-- 
2.43.0

