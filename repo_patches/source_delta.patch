From 732bd6665e0761289d13c61f391378f58fe74b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:41 +0000
Subject: [PATCH 01/16] fix: wrap negative offsets periodically in
 Filter::applyFilter

int %= size_t converts the negative index to a huge unsigned value, so the
wrap was wrong unless the dimension was a power of two.
---
 cxx/Filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 005b23e..9a858cd 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -237,7 +237,8 @@ Filter::applyFilter() {
         for (size_t j = 0; j < this->ndims; ++j) {
           indOffset[j] = (int) inds[j] + offset[j];
           // periodic boundary conditions
-          indOffset[j] %= this->globalDims[j];
+          const int dim = (int) this->globalDims[j];
+          indOffset[j] = (indOffset[j] % dim + dim) % dim;
 
           // check if inside local MPI domain
           insideLocalDomain &= (indOffset[j] >= (int) this->lo[j]);
-- 
2.43.0


From 3a34961670e22b98f774f889e7e409f780f594f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:41 +0000
Subject: [PATCH 02/16] fix: consider the first valid decomposition when
 minimising the cost

---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index 8c0f2a3..bda1f02 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -71,7 +71,7 @@ CubeDecomp::computeOptimalDecomp() {
     // find the optimal decomp
     std::vector<size_t> bestDecomp = validDecomps[0];
     double minCost = std::numeric_limits<double>::max();
-    for (size_t i = 1; i < validDecomps.size(); ++i) {
+    for (size_t i = 0; i < validDecomps.size(); ++i) {
       double cost = this->computeCost(validDecomps[i]);
       if (cost < minCost) {
         minCost = cost;
-- 
2.43.0


From aa48113374c16ae10fb4217032b842ef0b27b415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:41 +0000
Subject: [PATCH 03/16] fix: free MPI windows before the memory they expose

---
 cxx/Filter.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 9a858cd..c0f6539 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -343,16 +343,17 @@ Filter::newWindow(const std::vector<int>& side) {
 void 
 Filter::deleteWindow(const std::vector<int>& side) {
 
+    // free the window before the memory it exposes
+    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
+    if (winIt != this->windows.end()) {
+      MPI_Win_free(&winIt->second);
+    }
+
     std::map< std::vector<int>, std::pair<double*, double*> >::iterator dataIt = this->winData.find(side);
     if (dataIt != this->winData.end()) {
       MPI_Free_mem(dataIt->second.first);
       MPI_Free_mem(dataIt->second.second);
     }
-    
-    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
-    if (winIt != this->windows.end()) {
-      MPI_Win_free(&winIt->second);
-    }
 
 }
 
-- 
2.43.0


From 1b0490e149d6fbbc6eec274bca19198a604c968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:41 +0000
Subject: [PATCH 04/16] fix: support stencils reaching more than one cell in
 Filter

One window per side, as wide as the largest offset on that side, and the
neighbour found from the direction of the offset rather than the offset.
---
 cxx/Filter.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index c0f6539..9ae066a 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -70,10 +70,13 @@ Filter::Filter(const std::vector<size_t>& globalDims,
       const std::vector<int> side = this->getSideFromOffset(offset);
       const size_t numGhosts = this->getNumberOfGhostsFromOffset(offset);
 
-      std::pair< std::vector<int>, size_t > pSNG(side, numGhosts);
-      this->winNumGhosts.insert(pSNG);
-
-      this->newWindow(side);
+      // the window must be wide enough for all the offsets on that side
+      size_t& maxNumGhosts = this->winNumGhosts[side];
+      maxNumGhosts = (numGhosts > maxNumGhosts? numGhosts: maxNumGhosts);
+    }
+    for (std::map< std::vector<int>, size_t >::const_iterator it = this->winNumGhosts.begin(); 
+      it != this->winNumGhosts.end(); ++it) {
+      this->newWindow(it->first);
     }
 }
 
@@ -210,7 +213,11 @@ Filter::applyFilter() {
       const std::vector<int>& side = this->getSideFromOffset(offset);
 
       // apply periodic BCs, sub-domains wrap around to find the neighbor rank
-      int neighborRk = this->dcmp.getNeighborRank(this->rk, offset);
+      std::vector<int> dir(this->ndims);
+      for (size_t j = 0; j < this->ndims; ++j) {
+        dir[j] = -side[j];
+      }
+      int neighborRk = this->dcmp.getNeighborRank(this->rk, dir);
 
       MultiArrayIter wit = this->getWindowIter(neighborRk, side);
 
-- 
2.43.0


From 52a5a2be9f413bd2524386a39825dac99c19b7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:41 +0000
Subject: [PATCH 05/16] fix: separate the field values written by saveVTK.py

---
 upwind/python/saveVTK.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/saveVTK.py b/upwind/python/saveVTK.py
index 8ca5095..94cab6a 100644
--- a/upwind/python/saveVTK.py
+++ b/upwind/python/saveVTK.py
@@ -57,6 +57,6 @@ def rectilinear(fname, xAxis, yAxis, zAxis, data):
     f.write("LOOKUP_TABLE default\n")
       
     for i in range(len(flatData)):
-      f.write(f'{flatData[i]}')
+      f.write(f'{flatData[i]} ')
       if (i + 1) % 10 == 0:
           f.write('\n')
-- 
2.43.0


From 8654e14b4b56075965ac273bd917540e7fa987e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:41 +0000
Subject: [PATCH 06/16] fix: gather plain arrays in upwindMPI.py

Pickling a ghosted distributed array fails, so the vtk option crashed.
---
 upwind/python/upwindMPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 8cfdce2..95e51b0 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -115,7 +115,7 @@ class Upwind:
     if self.rk == 0:
       res = numpy.zeros(self.numCells, numpy.float64)
 
-    fRoot = MPI.COMM_WORLD.gather(self.f, root=0)
+    fRoot = MPI.COMM_WORLD.gather(numpy.array(self.f), root=0)
 
     if self.rk == 0:
       for rk in range(self.sz):
-- 
2.43.0


From 3ac3c7e63c1b1091b6b0a8ac447af14e87783683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:41 +0000
Subject: [PATCH 07/16] fix: set ier when parsing the matrix sizes in matmult

---
 matmult/fortran/matmult.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matmult/fortran/matmult.F90 b/matmult/fortran/matmult.F90
index fb507ee..9794f11 100644
--- a/matmult/fortran/matmult.F90
+++ b/matmult/fortran/matmult.F90
@@ -97,7 +97,7 @@ program test
         if (len_trim(argv) == 0) exit
 
         ! covnert string to integer
-        read(argv, *) val
+        read(argv, *, iostat=ier) val
 
         if (ier == 0) then
 
-- 
2.43.0


From a1866ee0e29e2846361b992ac758aaafc83c2ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:41 +0000
Subject: [PATCH 08/16] fix: remove data races on the thread numbers in the
 Fortran programs

---
 upwind/fortran/upwind.F90       | 2 +-
 upwind/fortran/upwindF03.F90    | 2 +-
 upwind/fortran/upwindF08Gpu.F90 | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 0e2d7bc..ab061cd 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -284,7 +284,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index a6ce65f..199ae20 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -291,7 +291,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 17d9dd0..c4504d3 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -377,7 +377,9 @@ program main
     type(upwind_type) :: up
 #ifdef HAVE_OPENMP
     !$omp parallel
+    !$omp master
     numThreads = omp_get_num_threads()
+    !$omp end master
     !$omp end parallel
     maxNumThreads = omp_get_max_threads()
     write(*, '(A,I4,A,I4)') 'Number of OpenMP threads: ', numThreads, ' out of a max number: ', maxNumThreads
-- 
2.43.0


From 6224303a9e3c4c3cad033942413f5b77ed312dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:56 +0000
Subject: [PATCH 09/16] fix: match the axes of the coordinates and of
 DIMENSIONS in the Fortran VTK files

DIMENSIONS is given in reverse order, so X_COORDINATES must be those of the
last axis and Z_COORDINATES those of the first.
---
 upwind/fortran/upwind.F90       | 26 +++++++++++++-------------
 upwind/fortran/upwindF03.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08Gpu.F90 | 26 +++++++++++++-------------
 4 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index ab061cd..d510fc9 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -182,10 +182,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(1) + 1, ' double'
-        do i = 1, obj % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
-        enddo
+        if (obj % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(3) + 1, ' double'
+            do i = 1, obj % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (obj % ndims > 1) then
@@ -199,15 +204,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (obj % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(3) + 1, ' double'
-            do i = 1, obj % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(1) + 1, ' double'
+        do i = 1, obj % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', obj % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 199ae20..910146f 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -190,10 +190,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -207,15 +212,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index de381bc..b2ef655 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -194,10 +194,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -211,15 +216,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index c4504d3..42aa29f 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -287,10 +287,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -304,15 +309,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
-- 
2.43.0


From a2bd2991e3f78b778c48647daf94c6e960c48cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 10/16] fix: follow the upwind direction in upwindMPI.py

The upwind neighbours were always taken on the low side, which is wrong for
negative velocity components.
---
 upwind/python/upwindMPI.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 95e51b0..61631a8 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -83,17 +83,23 @@ class Upwind:
     # handle all local computations first
     self.f += c*self.fOld
 
-    self.f[1:, :, :] -= deltaTime*self.coeff[0]*self.fOld[:-1, :, :]
-    self.f[:, 1:, :] -= deltaTime*self.coeff[1]*self.fOld[:, :-1, :]
-    self.f[:, :, 1:] -= deltaTime*self.coeff[2]*self.fOld[:, :, :-1]
-
-    # fetch neighboring data. This is where communication takes place
-    self.f[:1, :, :] -= deltaTime*self.coeff[0]* \
-                        self.fOld.getData(self.neighbRk[0], self.neighbSide[0])
-    self.f[:, :1, :] -= deltaTime*self.coeff[1]* \
-                        self.fOld.getData(self.neighbRk[1], self.neighbSide[1])
-    self.f[:, :, :1] -= deltaTime*self.coeff[2]* \
-                        self.fOld.getData(self.neighbRk[2], self.neighbSide[2])
+    for j in range(self.ndims):
+
+      # the cells whose upwind neighbor is local, their upwind neighbors and the
+      # cells whose upwind neighbor belongs to another process
+      cells = [slice(None)] * self.ndims
+      upCells = [slice(None)] * self.ndims
+      border = [slice(None)] * self.ndims
+      if self.upDirection[j] < 0:
+        cells[j], upCells[j], border[j] = slice(1, None), slice(None, -1), slice(None, 1)
+      else:
+        cells[j], upCells[j], border[j] = slice(None, -1), slice(1, None), slice(-1, None)
+
+      self.f[tuple(cells)] -= deltaTime*self.coeff[j]*self.fOld[tuple(upCells)]
+
+      # fetch neighboring data. This is where communication takes place
+      self.f[tuple(border)] -= deltaTime*self.coeff[j]* \
+                               self.fOld.getData(self.neighbRk[j], self.neighbSide[j])
 
   def checksum(self):
     return self.f.reduce(operator.add, 0.0, rootPe=0)
-- 
2.43.0


From 4d196b0036935d258414271cad0c496cf77957fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:39 +0000
Subject: [PATCH 11/16] fix: do not distribute the time steps among teams in
 upwindOMP5.cxx

The steps depend on one another; distribute the cells instead.
---
 upwind/cxx/upwindOMP5.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/upwind/cxx/upwindOMP5.cxx b/upwind/cxx/upwindOMP5.cxx
index 685bc0c..f02ef5a 100644
--- a/upwind/cxx/upwindOMP5.cxx
+++ b/upwind/cxx/upwindOMP5.cxx
@@ -65,15 +65,14 @@ void advect(int numTimeSteps, double deltaTime) {
             map(alloc:fOldPtr[0:ntot]) map(tofrom: fPtr[0:ntot])
     {
 	
-       #pragma omp target teams distribute
 	   for (int istep = 0; istep < numTimeSteps; ++istep) {
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
                 fOldPtr[i] = fPtr[i];
             }
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
 
 
-- 
2.43.0


From de3d034057db75fec19894dc96a9c64f2bbea451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:53 +0000
Subject: [PATCH 12/16] fix: accept negative numbers without leading digit as
 option values

-.5 was taken for the name of an option.
---
 cxx/CmdLineArgParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CmdLineArgParser.h b/cxx/CmdLineArgParser.h
index 2582f9b..49cc20e 100644
--- a/cxx/CmdLineArgParser.h
+++ b/cxx/CmdLineArgParser.h
@@ -81,7 +81,7 @@ class CmdLineArgParser {
       std::string arg(argv[a]);
       // is arg the name of an option (or a value)?
       bool isOptionName = (arg[0] == '-')
-        && (arg.size() >= 2) && !isdigit(arg[1]);
+        && (arg.size() >= 2) && !isdigit(arg[1]) && arg[1] != '.';
       if (isOptionName) {
         bool isValidOptName =
           doubleArg.find(arg) != doubleArg.end()
-- 
2.43.0


From 268fe462c71c33d9658fd9204a476f23c732069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:56 +0000
Subject: [PATCH 13/16] fix: upwindMpi reports the initial condition when it
 takes no time steps

---
 cxx/Filter.cpp           | 8 ++++++++
 cxx/Filter.h             | 5 +++++
 upwind/cxx/upwindMpi.cxx | 2 ++
 3 files changed, 15 insertions(+)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 9ae066a..7882dc8 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -471,6 +471,14 @@ Filter::copyOutToIn() {
     }
 }
 
+void 
+Filter::copyInToOut() {
+
+    for (size_t i = 0; i < this->mit.getNumberOfTerms(); ++i) {
+      this->outData[i] = this->inData[i];
+    }
+}
+
 double 
 Filter::computeCheckSum(const std::string& inOrOut) {
 
diff --git a/cxx/Filter.h b/cxx/Filter.h
index 096e5b3..a77ad46 100644
--- a/cxx/Filter.h
+++ b/cxx/Filter.h
@@ -150,6 +150,11 @@ public:
  */
   void copyOutToIn();
 
+/**
+ * Copy the input data into the output data container
+ */
+  void copyInToOut();
+
 /**
  * Compute check sums of the data
  * @param inOrOut either "input" or "output"
diff --git a/upwind/cxx/upwindMpi.cxx b/upwind/cxx/upwindMpi.cxx
index 3b5408d..23eda9f 100644
--- a/upwind/cxx/upwindMpi.cxx
+++ b/upwind/cxx/upwindMpi.cxx
@@ -109,6 +109,8 @@ int main(int argc, char** argv) {
 
       // set the initial condition
       fltr.setInDataByIndices(initialCondition);
+      // this is also the result if there are no time steps
+      fltr.copyInToOut();
       //fltr.printInData();
 
       // advect in time
-- 
2.43.0


From 9b2a112432cdb52f1817d4a9cf9488eb99fa45f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:32 +0000
Subject: [PATCH 14/16] fix: count the sub-domains of a decomposition without
 truncating to int

The product was accumulated in an int, so that for grids of more than 2^32
cells the number of sub-domains could be equal to the number of processes
modulo 2^32 (e.g. 1331 x 2237 x 2885 cells on 3 processes).
---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index bda1f02..973a690 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -55,7 +55,7 @@ CubeDecomp::computeOptimalDecomp() {
       for (size_t j = 0; j < this->ndims; ++j) {
         decomp[j] = primeNumbers[j][ decompInds[j] ];
       }
-      size_t n = std::accumulate(decomp.begin(), decomp.end(), 1, std::multiplies<size_t>());
+      size_t n = std::accumulate(decomp.begin(), decomp.end(), (size_t) 1, std::multiplies<size_t>());
       if (n == this->nprocs) {
         validDecomps.push_back(decomp);
       }
-- 
2.43.0


From c83f5f487f0c1c45fd2942770b4b966baa0f4e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 15/16] fix: Fortran VTK files lost the exponent letter of
 values below 1e-99

---
 upwind/fortran/upwind.F90       | 2 +-
 upwind/fortran/upwindF03.F90    | 2 +-
 upwind/fortran/upwindF08.F90    | 2 +-
 upwind/fortran/upwindF08Gpu.F90 | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index d510fc9..c374b91 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -213,7 +213,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, obj % ntot
-            write(iunit, '(e20.7)') obj % f(i)
+            write(iunit, '(e20.7e3)') obj % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 910146f..160925a 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -221,7 +221,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index b2ef655..4e09a21 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -225,7 +225,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 42aa29f..10f7d53 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -318,7 +318,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
-- 
2.43.0


From 5d24801b30d12df94297a771e69c3a35d6717ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:28 +0000
Subject: [PATCH 16/16] fix: an iterator that was not built has no elements
 (printing a filter without a decomposition used an uninitialised count)

---
 cxx/MultiArrayIter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/MultiArrayIter.h b/cxx/MultiArrayIter.h
index 071dcac..8b51f66 100644
--- a/cxx/MultiArrayIter.h
+++ b/cxx/MultiArrayIter.h
@@ -21,7 +21,7 @@ public:
 /**
  * No argument constructor
  */
-	MultiArrayIter() {}
+	MultiArrayIter(): rowMajor(false), ntot(0), ndims(0), bigIndex(0) {}
 
 /**
  * Constructor
-- 
2.43.0

