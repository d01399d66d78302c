From 5d61c58c09e0d39ea65bee4d5d38717501350c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:38 +0000
Subject: [PATCH 01/17] fix: count the sub-domains of a decomposition without
 truncation to int

The initial value 1 made std::accumulate accumulate in an int, so a decomposition
whose number of sub-domains differs from nprocs by a multiple of 2^32 was accepted.
---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index 8c0f2a3..682123b 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -55,7 +55,7 @@ CubeDecomp::computeOptimalDecomp() {
       for (size_t j = 0; j < this->ndims; ++j) {
         decomp[j] = primeNumbers[j][ decompInds[j] ];
       }
-      size_t n = std::accumulate(decomp.begin(), decomp.end(), 1, std::multiplies<size_t>());
+      size_t n = std::accumulate(decomp.begin(), decomp.end(), (size_t) 1, std::multiplies<size_t>());
       if (n == this->nprocs) {
         validDecomps.push_back(decomp);
       }
-- 
2.43.0


From f1fc0077f6ff6a44f41b48dc4f937855ff229fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:38 +0000
Subject: [PATCH 02/17] fix: let the first valid decomposition compete for the
 lowest cost

The search started at the second candidate with an infinite minimum, so the
first one could never be chosen when there were others.
---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index 682123b..973a690 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -71,7 +71,7 @@ CubeDecomp::computeOptimalDecomp() {
     // find the optimal decomp
     std::vector<size_t> bestDecomp = validDecomps[0];
     double minCost = std::numeric_limits<double>::max();
-    for (size_t i = 1; i < validDecomps.size(); ++i) {
+    for (size_t i = 0; i < validDecomps.size(); ++i) {
       double cost = this->computeCost(validDecomps[i]);
       if (cost < minCost) {
         minCost = cost;
-- 
2.43.0


From 8879cdb4de1527a6beab3f1c147083241eb6e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:38 +0000
Subject: [PATCH 03/17] fix: wrap neighbour ranks around any number of
 sub-domains

A direction component larger than the number of sub-domains along its axis was
wrapped only once and gave an invalid rank.
---
 cxx/CubeDecomp.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index 973a690..7d99376 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -116,15 +116,13 @@ CubeDecomp::getNeighborRank(int rk, const std::vector<int>& dir) {
     std::vector<int> indOffset(inds.size());
     for (size_t i = 0; i < this->ndims; ++i) {
 
-      indOffset[i] = inds[i] + dir[i];
-
       // apply periodic BCs outside of domain
-      if (indOffset[i] < 0) {
-        indOffset[i] += this->decomp[i];
-      }
-      else if (indOffset[i] >= this->decomp[i]) {
-        indOffset[i] -= this->decomp[i];
+      long n = (long) this->decomp[i];
+      long ind = ((long) inds[i] + (long) dir[i]) % n;
+      if (ind < 0) {
+        ind += n;
       }
+      indOffset[i] = (int) ind;
 
     }
     return (int) this->mit.computeBigIndex(indOffset);
-- 
2.43.0


From 1651d9d182ffbf0a3eeab4de58ae6350c09bddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:15 +0000
Subject: [PATCH 04/17] fix: distribute the cells of each time step, not the
 time steps, over the teams (upwindOMP5)

---
 upwind/cxx/upwindOMP5.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/upwind/cxx/upwindOMP5.cxx b/upwind/cxx/upwindOMP5.cxx
index 685bc0c..f02ef5a 100644
--- a/upwind/cxx/upwindOMP5.cxx
+++ b/upwind/cxx/upwindOMP5.cxx
@@ -65,15 +65,14 @@ void advect(int numTimeSteps, double deltaTime) {
             map(alloc:fOldPtr[0:ntot]) map(tofrom: fPtr[0:ntot])
     {
 	
-       #pragma omp target teams distribute
 	   for (int istep = 0; istep < numTimeSteps; ++istep) {
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
                 fOldPtr[i] = fPtr[i];
             }
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
 
 
-- 
2.43.0


From 8484d5334d880dceb633dfb259bc115105243961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:07 +0000
Subject: [PATCH 05/17] fix: register a string literal default as a string
 option, not as a flag

---
 cxx/CmdLineArgParser.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cxx/CmdLineArgParser.h b/cxx/CmdLineArgParser.h
index 2582f9b..f6af3e5 100644
--- a/cxx/CmdLineArgParser.h
+++ b/cxx/CmdLineArgParser.h
@@ -57,6 +57,12 @@ class CmdLineArgParser {
     this->stringArg[name] = defaultVal;
     this->stringArgHelp[name] = help;
   }
+  void set(const std::string& name, 
+           const char* defaultVal, 
+           const std::string& help) {
+    // a string literal would otherwise convert to bool
+    this->set(name, std::string(defaultVal), help);
+  }
   void set(const std::string& name, 
            bool defaultVal, 
            const std::string& help) {
-- 
2.43.0


From 8162c861d397584ed8abab97a49617bb0fba35ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:04 +0000
Subject: [PATCH 06/17] fix: create one halo window per side, as deep as the
 longest stencil branch

---
 cxx/Filter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 005b23e..d10c28a 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -70,10 +70,13 @@ Filter::Filter(const std::vector<size_t>& globalDims,
       const std::vector<int> side = this->getSideFromOffset(offset);
       const size_t numGhosts = this->getNumberOfGhostsFromOffset(offset);
 
-      std::pair< std::vector<int>, size_t > pSNG(side, numGhosts);
-      this->winNumGhosts.insert(pSNG);
-
-      this->newWindow(side);
+      // branches can share a side, the window must accommodate the longest one
+      size_t& maxNumGhosts = this->winNumGhosts[side];
+      maxNumGhosts = (numGhosts > maxNumGhosts? numGhosts: maxNumGhosts);
+    }
+    for (std::map< std::vector<int>, size_t >::const_iterator it = this->winNumGhosts.begin(); 
+      it != this->winNumGhosts.end(); ++it) {
+      this->newWindow(it->first);
     }
 }
 
-- 
2.43.0


From 855d08124fd43de01f3f2957e187e73b3a5121a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:04 +0000
Subject: [PATCH 07/17] fix: wrap negative cell indices around the periodic
 domain (applyFilter)

---
 cxx/Filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index d10c28a..ca91ab4 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -240,7 +240,8 @@ Filter::applyFilter() {
         for (size_t j = 0; j < this->ndims; ++j) {
           indOffset[j] = (int) inds[j] + offset[j];
           // periodic boundary conditions
-          indOffset[j] %= this->globalDims[j];
+          int numGlobal = (int) this->globalDims[j];
+          indOffset[j] = (indOffset[j] % numGlobal + numGlobal) % numGlobal;
 
           // check if inside local MPI domain
           insideLocalDomain &= (indOffset[j] >= (int) this->lo[j]);
-- 
2.43.0


From 36af560be14cafdd4499ca5e8eac5ac0f8ba3190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:04 +0000
Subject: [PATCH 08/17] fix: fetch the halo of a long stencil branch from the
 adjacent sub-domain

---
 cxx/Filter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index ca91ab4..1bb9d05 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -212,8 +212,13 @@ Filter::applyFilter() {
       // the corresponding window side on the remote sub-domain
       const std::vector<int>& side = this->getSideFromOffset(offset);
 
-      // apply periodic BCs, sub-domains wrap around to find the neighbor rank
-      int neighborRk = this->dcmp.getNeighborRank(this->rk, offset);
+      // apply periodic BCs, sub-domains wrap around to find the neighbor rank. The 
+      // branch reaches the adjacent sub-domain whatever its length
+      std::vector<int> dir(this->ndims);
+      for (size_t j = 0; j < this->ndims; ++j) {
+        dir[j] = -side[j];
+      }
+      int neighborRk = this->dcmp.getNeighborRank(this->rk, dir);
 
       MultiArrayIter wit = this->getWindowIter(neighborRk, side);
 
-- 
2.43.0


From f141e4a883c0ff6f67fa77880933b1948ab9718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:04 +0000
Subject: [PATCH 09/17] fix: free a halo window before the memory it exposes

---
 cxx/Filter.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 1bb9d05..34d93f5 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -351,16 +351,17 @@ Filter::newWindow(const std::vector<int>& side) {
 void 
 Filter::deleteWindow(const std::vector<int>& side) {
 
+    // close the window before releasing the memory it exposes
+    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
+    if (winIt != this->windows.end()) {
+      MPI_Win_free(&winIt->second);
+    }
+
     std::map< std::vector<int>, std::pair<double*, double*> >::iterator dataIt = this->winData.find(side);
     if (dataIt != this->winData.end()) {
       MPI_Free_mem(dataIt->second.first);
       MPI_Free_mem(dataIt->second.second);
     }
-    
-    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
-    if (winIt != this->windows.end()) {
-      MPI_Win_free(&winIt->second);
-    }
 
 }
 
-- 
2.43.0


From d0dfed2c49ab4c5284199d0701bcd123e3030f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:51 +0000
Subject: [PATCH 10/17] fix: the output of zero filter applications is the
 input

---
 cxx/Filter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 34d93f5..83828f2 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -142,6 +142,8 @@ Filter::setInData( double (*f)(const std::vector<double>&) ) {
       this->inData[i] = f(pos);
       this->mit.next();
     }
+    // the filter has not been applied to this input yet
+    this->outData = this->inData;
 
 // set the data in the windows
     for (std::map< std::vector<int>, std::pair<double*, double*> >::const_iterator it = this->winData.begin(); 
@@ -171,6 +173,8 @@ Filter::setInDataByIndices( double (*f)(const std::vector<size_t>&) ) {
       this->inData[i] = f(inds);
       this->mit.next();
     }
+    // the filter has not been applied to this input yet
+    this->outData = this->inData;
 
 // set the data in the windows
     for (std::map< std::vector<int>, std::pair<double*, double*> >::const_iterator it = this->winData.begin(); 
-- 
2.43.0


From ec62f54ce87f416f16e0f14db6f17fdfa9ab4695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:39 +0000
Subject: [PATCH 11/17] fix: separate the cell values in the VTK file of the
 Python programs

---
 upwind/python/saveVTK.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/saveVTK.py b/upwind/python/saveVTK.py
index 8ca5095..94cab6a 100644
--- a/upwind/python/saveVTK.py
+++ b/upwind/python/saveVTK.py
@@ -57,6 +57,6 @@ def rectilinear(fname, xAxis, yAxis, zAxis, data):
     f.write("LOOKUP_TABLE default\n")
       
     for i in range(len(flatData)):
-      f.write(f'{flatData[i]}')
+      f.write(f'{flatData[i]} ')
       if (i + 1) % 10 == 0:
           f.write('\n')
-- 
2.43.0


From b2a48bb024d394b5d430c4d412ef367ab36be32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:59 +0000
Subject: [PATCH 12/17] fix: gather plain arrays in the parallel Python
 program, whose distributed arrays cannot be pickled

---
 upwind/python/upwindMPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 8cfdce2..95e51b0 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -115,7 +115,7 @@ class Upwind:
     if self.rk == 0:
       res = numpy.zeros(self.numCells, numpy.float64)
 
-    fRoot = MPI.COMM_WORLD.gather(self.f, root=0)
+    fRoot = MPI.COMM_WORLD.gather(numpy.array(self.f), root=0)
 
     if self.rk == 0:
       for rk in range(self.sz):
-- 
2.43.0


From 3a76a518cccd1cec422a19c8592fbc962d3835af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:13 +0000
Subject: [PATCH 13/17] fix: take the upwind neighbor of the parallel Python
 program in the direction of the velocity

---
 upwind/python/upwindMPI.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 95e51b0..d75d293 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -83,17 +83,21 @@ class Upwind:
     # handle all local computations first
     self.f += c*self.fOld
 
-    self.f[1:, :, :] -= deltaTime*self.coeff[0]*self.fOld[:-1, :, :]
-    self.f[:, 1:, :] -= deltaTime*self.coeff[1]*self.fOld[:, :-1, :]
-    self.f[:, :, 1:] -= deltaTime*self.coeff[2]*self.fOld[:, :, :-1]
+    # views in which the upwind neighbor is always at the lower index
+    flip = tuple([slice(None, None, -d) for d in self.upDirection])
+    f, fOld = self.f[flip], self.fOld[flip]
+
+    f[1:, :, :] -= deltaTime*self.coeff[0]*fOld[:-1, :, :]
+    f[:, 1:, :] -= deltaTime*self.coeff[1]*fOld[:, :-1, :]
+    f[:, :, 1:] -= deltaTime*self.coeff[2]*fOld[:, :, :-1]
 
     # fetch neighboring data. This is where communication takes place
-    self.f[:1, :, :] -= deltaTime*self.coeff[0]* \
-                        self.fOld.getData(self.neighbRk[0], self.neighbSide[0])
-    self.f[:, :1, :] -= deltaTime*self.coeff[1]* \
-                        self.fOld.getData(self.neighbRk[1], self.neighbSide[1])
-    self.f[:, :, :1] -= deltaTime*self.coeff[2]* \
-                        self.fOld.getData(self.neighbRk[2], self.neighbSide[2])
+    f[:1, :, :] -= deltaTime*self.coeff[0]* \
+                   self.fOld.getData(self.neighbRk[0], self.neighbSide[0])[flip]
+    f[:, :1, :] -= deltaTime*self.coeff[1]* \
+                   self.fOld.getData(self.neighbRk[1], self.neighbSide[1])[flip]
+    f[:, :, :1] -= deltaTime*self.coeff[2]* \
+                   self.fOld.getData(self.neighbRk[2], self.neighbSide[2])[flip]
 
   def checksum(self):
     return self.f.reduce(operator.add, 0.0, rootPe=0)
-- 
2.43.0


From 8ac48e7ce19c26e955f0de977b80c95c7ac21951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 14/17] fix: write the coordinate lists of the Fortran VTK
 files in the order of the declared dimensions

---
 upwind/fortran/upwind.F90       | 26 +++++++++++++-------------
 upwind/fortran/upwindF03.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08Gpu.F90 | 26 +++++++++++++-------------
 4 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 0e2d7bc..285439a 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -182,10 +182,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(1) + 1, ' double'
-        do i = 1, obj % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
-        enddo
+        if (obj % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(3) + 1, ' double'
+            do i = 1, obj % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (obj % ndims > 1) then
@@ -199,15 +204,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (obj % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(3) + 1, ' double'
-            do i = 1, obj % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(1) + 1, ' double'
+        do i = 1, obj % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', obj % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index a6ce65f..e588e1e 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -190,10 +190,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -207,15 +212,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index de381bc..b2ef655 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -194,10 +194,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -211,15 +216,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 17d9dd0..a798e19 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -287,10 +287,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo      
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -304,15 +309,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
-- 
2.43.0


From 4122776b2600446660db51502f72aab78edc46db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 15/17] fix: give each thread its own thread numbers when the
 Fortran programs report them

---
 upwind/fortran/upwind.F90       | 2 +-
 upwind/fortran/upwindF03.F90    | 2 +-
 upwind/fortran/upwindF08Gpu.F90 | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 285439a..d510fc9 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -284,7 +284,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index e588e1e..910146f 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -291,7 +291,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index a798e19..dca37e0 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -377,7 +377,9 @@ program main
     type(upwind_type) :: up
 #ifdef HAVE_OPENMP
     !$omp parallel
+    !$omp single
     numThreads = omp_get_num_threads()
+    !$omp end single
     !$omp end parallel
     maxNumThreads = omp_get_max_threads()
     write(*, '(A,I4,A,I4)') 'Number of OpenMP threads: ', numThreads, ' out of a max number: ', maxNumThreads
-- 
2.43.0


From ac345fd16ca802aa890fcbe45e6b4b68b0753b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 16/17] fix: private index set in the OpenACC loop of
 upwind.F90

---
 upwind/fortran/upwind.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index d510fc9..ade2c4c 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -120,7 +120,7 @@ contains
 
         ! iterate over the cells
         !$OMP PARALLEL DO PRIVATE(i, j, inds, oldIndex, upI)
-        !$acc parallel loop
+        !$acc parallel loop private(j, inds, oldIndex, upI)
         do i = 1, obj % ntot
 
             ! compute the index set of this cell
-- 
2.43.0


From 172573feef326f2077e1d2e1aef5e49b410c74e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 17/17] fix: set the status matmult tests after reading an
 argument

---
 matmult/fortran/matmult.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matmult/fortran/matmult.F90 b/matmult/fortran/matmult.F90
index fb507ee..9794f11 100644
--- a/matmult/fortran/matmult.F90
+++ b/matmult/fortran/matmult.F90
@@ -97,7 +97,7 @@ program test
         if (len_trim(argv) == 0) exit
 
         ! covnert string to integer
-        read(argv, *) val
+        read(argv, *, iostat=ier) val
 
         if (ier == 0) then
 
-- 
2.43.0

