From b7a6fe28f73c4c572521a954acc4d91c952b6f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:10 +0000
Subject: [PATCH 01/22] fix: wrap negative stencil indices with signed
 arithmetic in Filter

The int index was converted to size_t before the modulo, which only gives
the right cell when the number of cells is a power of two.
---
 cxx/Filter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 005b23e..7712d54 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -236,8 +236,10 @@ Filter::applyFilter() {
         bool insideLocalDomain = true;
         for (size_t j = 0; j < this->ndims; ++j) {
           indOffset[j] = (int) inds[j] + offset[j];
-          // periodic boundary conditions
-          indOffset[j] %= this->globalDims[j];
+          // periodic boundary conditions (keep the arithmetic signed, the
+          // offset index can be negative)
+          int numCells = (int) this->globalDims[j];
+          indOffset[j] = (indOffset[j] % numCells + numCells) % numCells;
 
           // check if inside local MPI domain
           insideLocalDomain &= (indOffset[j] >= (int) this->lo[j]);
-- 
2.43.0


From 144d0c7001047372b79cd609d8c9e1e7d59f94c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:12 +0000
Subject: [PATCH 02/22] fix: size halo windows for the longest offset of a side
 and fetch from the adjacent rank

Offsets of different lengths on the same side share one window, which was
created for the first one only (out of bounds access, and the second window
was never freed). Offsets longer than one asked for the rank further away.
---
 cxx/Filter.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 7712d54..c19bf81 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -57,7 +57,8 @@ Filter::Filter(const std::vector<size_t>& globalDims,
     // save the stencil
     this->stencil = stencil;
 
-    // create all the windows
+    // find the width of the halo on each side. Note that several offsets 
+    // can point to the same side, the window must fit the longest one
     for (std::map< std::vector<int>, double >::const_iterator it = stencil.begin(); 
       it != stencil.end(); ++it) {
 
@@ -70,10 +71,14 @@ Filter::Filter(const std::vector<size_t>& globalDims,
       const std::vector<int> side = this->getSideFromOffset(offset);
       const size_t numGhosts = this->getNumberOfGhostsFromOffset(offset);
 
-      std::pair< std::vector<int>, size_t > pSNG(side, numGhosts);
-      this->winNumGhosts.insert(pSNG);
+      size_t& winNumGhosts = this->winNumGhosts[side];
+      winNumGhosts = (numGhosts > winNumGhosts? numGhosts: winNumGhosts);
+    }
 
-      this->newWindow(side);
+    // create all the windows, one per side
+    for (std::map< std::vector<int>, size_t >::const_iterator it = this->winNumGhosts.begin();
+      it != this->winNumGhosts.end(); ++it) {
+      this->newWindow(it->first);
     }
 }
 
@@ -209,8 +214,15 @@ Filter::applyFilter() {
       // the corresponding window side on the remote sub-domain
       const std::vector<int>& side = this->getSideFromOffset(offset);
 
+      // the neighbor is in the opposite direction to side, regardless of how 
+      // long the offset is
+      std::vector<int> dir(this->ndims);
+      for (size_t j = 0; j < this->ndims; ++j) {
+        dir[j] = -side[j];
+      }
+
       // apply periodic BCs, sub-domains wrap around to find the neighbor rank
-      int neighborRk = this->dcmp.getNeighborRank(this->rk, offset);
+      int neighborRk = this->dcmp.getNeighborRank(this->rk, dir);
 
       MultiArrayIter wit = this->getWindowIter(neighborRk, side);
 
-- 
2.43.0


From c8f085d41b2c696099984a1dd511ed143b9b0b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 03/22] fix: consider every valid decomposition when searching
 for the best one

The first candidate was never compared against the others.
---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index 8c0f2a3..bda1f02 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -71,7 +71,7 @@ CubeDecomp::computeOptimalDecomp() {
     // find the optimal decomp
     std::vector<size_t> bestDecomp = validDecomps[0];
     double minCost = std::numeric_limits<double>::max();
-    for (size_t i = 1; i < validDecomps.size(); ++i) {
+    for (size_t i = 0; i < validDecomps.size(); ++i) {
       double cost = this->computeCost(validDecomps[i]);
       if (cost < minCost) {
         minCost = cost;
-- 
2.43.0


From aea3dbc19b5e23c73744e724abe82c593c00e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 04/22] fix: compute the number of sub-domains with size_t
 arithmetic

std::accumulate stored the product in an int, which wrapped around for large
numbers of cells and matched the number of processes by accident.
---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index bda1f02..973a690 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -55,7 +55,7 @@ CubeDecomp::computeOptimalDecomp() {
       for (size_t j = 0; j < this->ndims; ++j) {
         decomp[j] = primeNumbers[j][ decompInds[j] ];
       }
-      size_t n = std::accumulate(decomp.begin(), decomp.end(), 1, std::multiplies<size_t>());
+      size_t n = std::accumulate(decomp.begin(), decomp.end(), (size_t) 1, std::multiplies<size_t>());
       if (n == this->nprocs) {
         validDecomps.push_back(decomp);
       }
-- 
2.43.0


From 5cf799bbf2a04cd434ca6f99b44c1ce52702d450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 05/22] fix: make a default constructed iterator empty

Its members were uninitialized; a Filter without valid decomposition iterates
over one.
---
 cxx/MultiArrayIter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/MultiArrayIter.h b/cxx/MultiArrayIter.h
index 071dcac..415e2b5 100644
--- a/cxx/MultiArrayIter.h
+++ b/cxx/MultiArrayIter.h
@@ -21,7 +21,7 @@ public:
 /**
  * No argument constructor
  */
-	MultiArrayIter() {}
+	MultiArrayIter() : rowMajor(false), ntot(0), ndims(0), bigIndex(0) {}
 
 /**
  * Constructor
-- 
2.43.0


From 4729de5787acab0af9d6d14c000005734d43308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 06/22] fix: do not save a VTK file when there is no valid
 decomposition

There is no data to gather and no local domain in this case.
---
 cxx/Filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index c19bf81..59968fc 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -501,6 +501,11 @@ Filter::computeCheckSum(const std::string& inOrOut) {
 void 
 Filter::saveVTK(const std::string& filename) {
 
+    if (!this->validDecomp) {
+      // nothing to save
+      return;
+    }
+
     size_t ntot = 1;
     for (size_t i = 0; i < this->ndims; ++i) {
       ntot *= globalDims[i];
-- 
2.43.0


From 16e1d9c93eeeae1a01d76f375c1604739e453de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 07/22] fix: free the MPI window before the memory it exposes

---
 cxx/Filter.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 59968fc..bad724c 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -356,16 +356,17 @@ Filter::newWindow(const std::vector<int>& side) {
 void 
 Filter::deleteWindow(const std::vector<int>& side) {
 
+    // the window must be freed before the memory it exposes
+    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
+    if (winIt != this->windows.end()) {
+      MPI_Win_free(&winIt->second);
+    }
+
     std::map< std::vector<int>, std::pair<double*, double*> >::iterator dataIt = this->winData.find(side);
     if (dataIt != this->winData.end()) {
       MPI_Free_mem(dataIt->second.first);
       MPI_Free_mem(dataIt->second.second);
     }
-    
-    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
-    if (winIt != this->windows.end()) {
-      MPI_Win_free(&winIt->second);
-    }
 
 }
 
-- 
2.43.0


From 068d4488b0c250405164c1ddbad394266bf215b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 08/22] fix: separate the cell values in the VTK file written
 by Python

---
 upwind/python/saveVTK.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/saveVTK.py b/upwind/python/saveVTK.py
index 8ca5095..94cab6a 100644
--- a/upwind/python/saveVTK.py
+++ b/upwind/python/saveVTK.py
@@ -57,6 +57,6 @@ def rectilinear(fname, xAxis, yAxis, zAxis, data):
     f.write("LOOKUP_TABLE default\n")
       
     for i in range(len(flatData)):
-      f.write(f'{flatData[i]}')
+      f.write(f'{flatData[i]} ')
       if (i + 1) % 10 == 0:
           f.write('\n')
-- 
2.43.0


From 141b407f777e420f46bdffd936d862227a1eba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 09/22] fix: gather plain arrays when saving the MPI Python
 field

Ghosted distributed arrays cannot be pickled.
---
 upwind/python/upwindMPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 8cfdce2..851c4c6 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -115,7 +115,7 @@ class Upwind:
     if self.rk == 0:
       res = numpy.zeros(self.numCells, numpy.float64)
 
-    fRoot = MPI.COMM_WORLD.gather(self.f, root=0)
+    fRoot = MPI.COMM_WORLD.gather(numpy.asarray(self.f), root=0)
 
     if self.rk == 0:
       for rk in range(self.sz):
-- 
2.43.0


From b36903162f0ff949a520fc3b5ec7044d48be08a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 10/22] fix: set the status when parsing matmult's arguments

The status was never set, the arguments could be ignored and a non integer one
stopped the program.
---
 matmult/fortran/matmult.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matmult/fortran/matmult.F90 b/matmult/fortran/matmult.F90
index fb507ee..a30c055 100644
--- a/matmult/fortran/matmult.F90
+++ b/matmult/fortran/matmult.F90
@@ -97,7 +97,7 @@ program test
         if (len_trim(argv) == 0) exit
 
         ! covnert string to integer
-        read(argv, *) val
+        read(argv, '(i32)', iostat=ier) val
 
         if (ier == 0) then
 
-- 
2.43.0


From dfe4b8f4d35d2513864dd2c6a754e2340aaf24ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:51 +0000
Subject: [PATCH 11/22] fix: write the Fortran VTK coordinates in the order of
 the dimensions

DIMENSIONS lists the axes in reverse order, the coordinates did not: the file
was inconsistent unless all the axes had the same number of cells.
---
 upwind/fortran/upwind.F90       | 26 +++++++++++++-------------
 upwind/fortran/upwindF03.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08Gpu.F90 | 26 +++++++++++++-------------
 4 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 0e2d7bc..e5b1af4 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -182,10 +182,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(1) + 1, ' double'
-        do i = 1, obj % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
-        enddo
+        if (obj % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(3) + 1, ' double'
+            do i = 1, obj % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
+            enddo
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (obj % ndims > 1) then
@@ -199,15 +204,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (obj % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(3) + 1, ' double'
-            do i = 1, obj % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(1) + 1, ' double'
+        do i = 1, obj % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
+        enddo      
 
         write(iunit, '(a, i20)') 'CELL_DATA ', obj % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index a6ce65f..b7fe6e3 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -190,10 +190,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -207,15 +212,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo      
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index de381bc..6076d79 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -194,10 +194,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -211,15 +216,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo      
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 17d9dd0..c89e09e 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -287,10 +287,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -304,15 +309,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo      
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
-- 
2.43.0


From 56e3e65383a9e6134db362fa41d566b229a3fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:51 +0000
Subject: [PATCH 12/22] fix: remove the data race in the Fortran start-up
 banners

All the threads wrote to the same variables, the number of threads was
sometimes not printed.
---
 upwind/fortran/upwind.F90       | 2 +-
 upwind/fortran/upwindF03.F90    | 2 +-
 upwind/fortran/upwindF08Gpu.F90 | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index e5b1af4..31560fb 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -284,7 +284,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index b7fe6e3..2b9e6e2 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -291,7 +291,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index c89e09e..33b457e 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -377,7 +377,9 @@ program main
     type(upwind_type) :: up
 #ifdef HAVE_OPENMP
     !$omp parallel
+    !$omp single
     numThreads = omp_get_num_threads()
+    !$omp end single
     !$omp end parallel
     maxNumThreads = omp_get_max_threads()
     write(*, '(A,I4,A,I4)') 'Number of OpenMP threads: ', numThreads, ' out of a max number: ', maxNumThreads
-- 
2.43.0


From 17bb8d5fec0f09c13175160dc009e1617438669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:24 +0000
Subject: [PATCH 13/22] fix: follow the flow direction in the MPI Python
 advection

The upwind neighbor was always taken on the low side while the coefficients
and the remote side account for the sign of the velocity.
---
 upwind/python/upwindMPI.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 851c4c6..7270a8a 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -72,6 +72,19 @@ class Upwind:
       self.neighbSide[i] = tuple(-direction)
       direction[i] = 0
 
+    # cells whose upwind neighbor is local, the corresponding upwind cells and 
+    # cells whose upwind neighbor is on another process, in each direction
+    self.innerCells, self.upCells, self.edgeCells = [], [], []
+    for i in range(self.ndims):
+      before = (slice(None),)*i
+      if self.upDirection[i] < 0:
+        inner, up, edge = slice(1, None), slice(None, -1), slice(None, 1)
+      else:
+        inner, up, edge = slice(None, -1), slice(1, None), slice(-1, None)
+      self.innerCells.append(before + (inner,))
+      self.upCells.append(before + (up,))
+      self.edgeCells.append(before + (edge,))
+
   def advect(self, deltaTime):
     """
     Advance the field by one time step
@@ -83,17 +96,13 @@ class Upwind:
     # handle all local computations first
     self.f += c*self.fOld
 
-    self.f[1:, :, :] -= deltaTime*self.coeff[0]*self.fOld[:-1, :, :]
-    self.f[:, 1:, :] -= deltaTime*self.coeff[1]*self.fOld[:, :-1, :]
-    self.f[:, :, 1:] -= deltaTime*self.coeff[2]*self.fOld[:, :, :-1]
+    for j in range(self.ndims):
+      self.f[self.innerCells[j]] -= deltaTime*self.coeff[j]*self.fOld[self.upCells[j]]
 
     # fetch neighboring data. This is where communication takes place
-    self.f[:1, :, :] -= deltaTime*self.coeff[0]* \
-                        self.fOld.getData(self.neighbRk[0], self.neighbSide[0])
-    self.f[:, :1, :] -= deltaTime*self.coeff[1]* \
-                        self.fOld.getData(self.neighbRk[1], self.neighbSide[1])
-    self.f[:, :, :1] -= deltaTime*self.coeff[2]* \
-                        self.fOld.getData(self.neighbRk[2], self.neighbSide[2])
+    for j in range(self.ndims):
+      self.f[self.edgeCells[j]] -= deltaTime*self.coeff[j]* \
+                        self.fOld.getData(self.neighbRk[j], self.neighbSide[j])
 
   def checksum(self):
     return self.f.reduce(operator.add, 0.0, rootPe=0)
-- 
2.43.0


From 637de892b9075a8691926ff6d1be3eb8d0aceed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:24 +0000
Subject: [PATCH 14/22] fix: keep the exponent letter of tiny field values in
 Fortran VTK files

Values below 1e-99 were written as 0.1-100, which cannot be read back.
---
 upwind/fortran/upwind.F90       | 2 +-
 upwind/fortran/upwindF03.F90    | 2 +-
 upwind/fortran/upwindF08.F90    | 2 +-
 upwind/fortran/upwindF08Gpu.F90 | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 31560fb..1d871b0 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -213,7 +213,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, obj % ntot
-            write(iunit, '(e20.7)') obj % f(i)
+            write(iunit, '(e20.7e3)') obj % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 2b9e6e2..5aa69e2 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -221,7 +221,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index 6076d79..93de6f0 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -225,7 +225,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 33b457e..1942b8e 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -318,7 +318,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
-- 
2.43.0


From b4831774e547830c09acad03dcb1c7f67fe7cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:20 +0000
Subject: [PATCH 15/22] fix: do not take the front of an empty receive buffer
 when gathering

Only the root process allocates the buffer.
---
 cxx/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index bad724c..6c57e57 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -521,7 +521,7 @@ Filter::saveVTK(const std::string& filename) {
 
     // gather the data
     MPI_Gather(&this->outData.front(), nLocal, MPI_DOUBLE,
-               &recvBuffer.front(), nLocal, MPI_DOUBLE,
+               (this->rk == 0? &recvBuffer.front(): NULL), nLocal, MPI_DOUBLE,
                0, MPI_COMM_WORLD);
 
     std::vector<double> globalField;
-- 
2.43.0


From bd8fe61bb177427bf8c8e3c2f4c6b03bf7715326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:43 +0000
Subject: [PATCH 16/22] fix: do not free missing fields when upwindMPI.py finds
 no decomposition

---
 upwind/python/upwindMPI.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 7270a8a..80361e5 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -112,8 +112,10 @@ class Upwind:
       print('{0} {1}'.format(i, self.f[i]))
 
   def __del__(self):
-    self.f.free()
-    self.fOld.free()
+    # the fields are missing if there was no decomposition
+    for name in 'f', 'fOld':
+      if hasattr(self, name):
+        getattr(self, name).free()
 
   def gatherRoot(self):
     """
-- 
2.43.0


From d269329fa1c22e5568fa042895ee5a4255211f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:36 +0000
Subject: [PATCH 17/22] fix: name the private array of upwindAcc as OpenACC
 allows, so that GNU compilers take it

---
 upwind/cxx/upwindAcc.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/cxx/upwindAcc.cxx b/upwind/cxx/upwindAcc.cxx
index adb77b6..a6b0c4a 100644
--- a/upwind/cxx/upwindAcc.cxx
+++ b/upwind/cxx/upwindAcc.cxx
@@ -67,7 +67,7 @@ public:
   copyin(fOldPtr[0:ntot]) \
   present_or_copyin(coeffPtr[0:NDIMS], dimProdPtr[0:NDIMS],	\
   upDirectionPtr[0:NDIMS], numCellsPtr[0:NDIMS], deltaTime) \
-  private(inds[0:NDIMS], upI)
+  private(inds, upI)
     for (int i = 0; i < ntot; ++i) {
 
 
-- 
2.43.0


From 2f37136ce382a6c07792511665272b81368c0939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:36 +0000
Subject: [PATCH 18/22] fix: start the nested preprocessor directives of
 upwindF08Gpu.F90 in column one

---
 upwind/fortran/upwindF08Gpu.F90 | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 1942b8e..b4003c1 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -168,12 +168,12 @@ contains
         enddo
 
 #if defined(HAVE_OPENACC)
-    #if defined(HAVE_OPENACC_KERNELS)
-        #warning "Using OpenACC kernels directive"
+#if defined(HAVE_OPENACC_KERNELS)
+#warning "Using OpenACC kernels directive"
         !$acc kernels
-    #else
+#else
         !$acc parallel loop 
-    #endif
+#endif
 #elif defined(HAVE_OPENMP_OFFLOAD)
         !$omp target
         !$omp teams distribute parallel do thread_limit(_THREADS_PER_TEAM)
@@ -184,11 +184,11 @@ contains
             oldF(i) = fptr(i)
         enddo
 #if defined(HAVE_OPENACC)
-    #if defined(HAVE_OPENACC_KERNELS)
+#if defined(HAVE_OPENACC_KERNELS)
         !$acc end kernels
-    #else
+#else
         !$acc end parallel loop
-    #endif
+#endif
 #elif defined(HAVE_OPENMP_OFFLOAD)
         !$omp end teams distribute parallel do
         !$omp end target
@@ -198,13 +198,13 @@ contains
 
         ! iterate over the cells
 #if defined(HAVE_OPENACC)
-    #if defined(HAVE_OPENACC_KERNELS)
-        #warning "Using OpenACC kernels directive"
+#if defined(HAVE_OPENACC_KERNELS)
+#warning "Using OpenACC kernels directive"
         !$acc kernels
         !$acc loop independent, private(inds, oldIndex, upI, i, j)
-    #else
+#else
         !$acc parallel loop private(inds, j, oldIndex, upI)
-    #endif
+#endif
 #elif defined(HAVE_OPENMP_OFFLOAD)
         !$omp target
         !$omp teams distribute parallel do private(inds, j, oldIndex, upI) thread_limit(_THREADS_PER_TEAM)
@@ -242,11 +242,11 @@ contains
             enddo
         enddo
 #if defined(HAVE_OPENACC)
-    #if defined(HAVE_OPENACC_KERNELS)
+#if defined(HAVE_OPENACC_KERNELS)
         !$acc end kernels
-    #else
+#else
         !$acc end parallel loop
-    #endif
+#endif
 #elif defined(HAVE_OPENMP_OFFLOAD)  
         !$omp end teams distribute parallel do
         !$omp end target
-- 
2.43.0


From db196e405b3a0c9400dd84dd626cef80dd82c475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:36 +0000
Subject: [PATCH 19/22] fix: give each OpenACC iteration of upwind.F90 its own
 index set

---
 upwind/fortran/upwind.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 1d871b0..449dd25 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -120,7 +120,7 @@ contains
 
         ! iterate over the cells
         !$OMP PARALLEL DO PRIVATE(i, j, inds, oldIndex, upI)
-        !$acc parallel loop
+        !$acc parallel loop private(j, inds, oldIndex, upI)
         do i = 1, obj % ntot
 
             ! compute the index set of this cell
-- 
2.43.0


From 1106755860c0b19602c7f2d3945a98c8485025f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:48 +0000
Subject: [PATCH 20/22] fix: run the time steps of upwindOMP5 one after the
 other

---
 upwind/cxx/upwindOMP5.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/upwind/cxx/upwindOMP5.cxx b/upwind/cxx/upwindOMP5.cxx
index 685bc0c..f02ef5a 100644
--- a/upwind/cxx/upwindOMP5.cxx
+++ b/upwind/cxx/upwindOMP5.cxx
@@ -65,15 +65,14 @@ void advect(int numTimeSteps, double deltaTime) {
             map(alloc:fOldPtr[0:ntot]) map(tofrom: fPtr[0:ntot])
     {
 	
-       #pragma omp target teams distribute
 	   for (int istep = 0; istep < numTimeSteps; ++istep) {
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
                 fOldPtr[i] = fPtr[i];
             }
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
 
 
-- 
2.43.0


From 1a242425ed3e3037b5da8899f01d1f55d77d2c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:07 +0000
Subject: [PATCH 21/22] fix: keep the exponent letter of very small or large
 coordinates in Fortran VTK files

---
 upwind/fortran/upwind.F90       | 6 +++---
 upwind/fortran/upwindF03.F90    | 6 +++---
 upwind/fortran/upwindF08.F90    | 6 +++---
 upwind/fortran/upwindF08Gpu.F90 | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 449dd25..5e7448b 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -185,7 +185,7 @@ contains
         if (obj % ndims > 2) then
             write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(3) + 1, ' double'
             do i = 1, obj % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + obj % deltas(3) * (i - 1)
             enddo
         else
             write(iunit, '(a)') 'X_COORDINATES 1 double'
@@ -196,7 +196,7 @@ contains
         if (obj % ndims > 1) then
             write(iunit, '(a, i10, a)') 'Y_COORDINATES ', obj % numCells(2) + 1, ' double'
             do i = 1, obj % numCells(2) + 1
-                write(iunit, '(e20.7)') 0.0 + obj % deltas(2) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + obj % deltas(2) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'Y_COORDINATES 1 double'
@@ -206,7 +206,7 @@ contains
         write(iunit, *) 
         write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(1) + 1, ' double'
         do i = 1, obj % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
+            write(iunit, '(e20.7e3)') 0.0 + obj % deltas(1) * (i - 1)
         enddo      
 
         write(iunit, '(a, i20)') 'CELL_DATA ', obj % ntot
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 5aa69e2..24dbbaa 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -193,7 +193,7 @@ contains
         if (this % ndims > 2) then
             write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
             do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(3) * (i - 1)
             enddo
         else
             write(iunit, '(a)') 'X_COORDINATES 1 double'
@@ -204,7 +204,7 @@ contains
         if (this % ndims > 1) then
             write(iunit, '(a, i10, a)') 'Y_COORDINATES ', this % numCells(2) + 1, ' double'
             do i = 1, this % numCells(2) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(2) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(2) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'Y_COORDINATES 1 double'
@@ -214,7 +214,7 @@ contains
         write(iunit, *) 
         write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
         do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+            write(iunit, '(e20.7e3)') 0.0 + this % deltas(1) * (i - 1)
         enddo      
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index 93de6f0..54a6f75 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -197,7 +197,7 @@ contains
         if (this % ndims > 2) then
             write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
             do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(3) * (i - 1)
             enddo
         else
             write(iunit, '(a)') 'X_COORDINATES 1 double'
@@ -208,7 +208,7 @@ contains
         if (this % ndims > 1) then
             write(iunit, '(a, i10, a)') 'Y_COORDINATES ', this % numCells(2) + 1, ' double'
             do i = 1, this % numCells(2) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(2) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(2) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'Y_COORDINATES 1 double'
@@ -218,7 +218,7 @@ contains
         write(iunit, *) 
         write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
         do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+            write(iunit, '(e20.7e3)') 0.0 + this % deltas(1) * (i - 1)
         enddo      
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index b4003c1..76c4488 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -290,7 +290,7 @@ contains
         if (this % ndims > 2) then
             write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
             do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(3) * (i - 1)
             enddo
         else
             write(iunit, '(a)') 'X_COORDINATES 1 double'
@@ -301,7 +301,7 @@ contains
         if (this % ndims > 1) then
             write(iunit, '(a, i10, a)') 'Y_COORDINATES ', this % numCells(2) + 1, ' double'
             do i = 1, this % numCells(2) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(2) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(2) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'Y_COORDINATES 1 double'
@@ -311,7 +311,7 @@ contains
         write(iunit, *) 
         write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
         do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+            write(iunit, '(e20.7e3)') 0.0 + this % deltas(1) * (i - 1)
         enddo      
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
-- 
2.43.0


From fb43d2e354c56dc66e914d7463b9d33f7c4697e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:03 +0000
Subject: [PATCH 22/22] fix: testStencil2d announces a file only when there is
 one to write

---
 laplacian/cxx/testStencil2d.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laplacian/cxx/testStencil2d.cxx b/laplacian/cxx/testStencil2d.cxx
index 3e7705a..0271af1 100644
--- a/laplacian/cxx/testStencil2d.cxx
+++ b/laplacian/cxx/testStencil2d.cxx
@@ -95,7 +95,8 @@ int main(int argc, char** argv) {
     //fltr.printInData();
     fltr.printOutData();
 
-    if (writeVTK) {
+    // there is nothing to write without a decomposition
+    if (writeVTK && fltr.isDecompValid()) {
         // write data to VTK file
         if (fltr.getRank() == 0) {
           std::cout << "Data will be written to file stencil2d.vtk\n";
-- 
2.43.0

